/* C32: a ringtone (RTTTL, iMelody, Nokia OTA) plays the melody its text or bits spell out (the formats the build lists as optional).
 *
 * A tune is built twice from the same abstract items: as a file, and as a timeline of (start, end, key, velocity). Key and velocity are read
 * off the rendered output with a collection whose notes are constants, different for every key; the constants are measured beforehand by
 * sending the same notes to a MIDI stream. */
#include "sut.h"
#include <ctype.h>
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include <math.h>
const char mc_property[] = "C32";
static bytes W, bank; static EAS_FILE ef, df; static mc_file em, dm;
enum { KLO = 46, KHI = 121 };
static int (*CAL)[128];                                     /* [key - KLO][velocity], 0: not measured yet */
static double T;                                            /* frame, ms */
typedef struct { double t0, t1; int key, vel; } seg;
static seg TL[4000]; static int NTL; static double now_; static int endless;
static void note(double ms, double rest, int key, int vel) { if (NTL < 3990) { if (key >= 0) { TL[NTL++] = (seg){ now_, now_ + ms - rest, key, vel }; } } now_ += ms; }
static void bank_make(void) { static dc_note t[KHI - KLO + 1]; for (int k = KLO; k <= KHI; k++) t[k - KLO] = (dc_note){ .bank = 0, .prog = 80, .klo = k, .khi = k, .level = 700 + 60 * (k - KLO) }; dc_bank(&bank, t, KHI - KLO + 1, dls_flat, dls_nflat); }
static void fresh(void) { sut_init(); sut_dry(); EAS_SetVolume(E, NULL, 100); sut_dls(NULL, &bank); }
static int measure(int key, int vel) {
    int *c = &CAL[key - KLO][vel]; if (*c) return *c; if (!vel) return 0;
    fresh(); EAS_SetVolume(E, NULL, 98); EAS_HANDLE h = sut_midi();         /* a ringtone's stream has 2 dB of headroom */
    sut_w2(h, 0xc0, 80); sut_w3(h, 0xb0, 7, 127); sut_w3(h, 0x90, key, vel); for (int k = 0; k < 4; k++) sut_render(); int v = sut_last(0); EAS_CloseMIDIStream(E, h); EAS_Shutdown(E);
    MC_CHECK(v > 20, "measure", "key %d at velocity %d does not sound", key, vel); return *c = v;
}
static int near(int a, int b) { return abs(a - b) <= 3 + abs(b) / 110; }
static const seg *at(double t) { for (int i = 0; i < NTL; i++) if (TL[i].t0 <= t && t < TL[i].t1) return &TL[i]; return NULL; }
static int val(double t, double from) { const seg *s = t < 0 ? NULL : at(t); return s && s->t0 >= from ? measure(s->key, s->vel) : 0; }
/* what the output may be in the frame that begins at t ms of the tune: any of the levels the tune has within a frame and a half of it */
static void frame_ok(double t, double from, int f, double d) {
    int v = sut_last(0); int lo = 1 << 30, hi = -1, seen = 0;
    for (int k = -8; k <= 8; k++) { int w = val(t + d * k / 8, from); if (w < lo) lo = w; if (w > hi) hi = w; if (near(w, v)) seen = 1; }
    for (int i = 0; i < NTL && lo == hi; i++) if (fabs(TL[i].t0 - t) < d || fabs(TL[i].t1 - t) < d) lo = 0;          /* a repeated note may be struck anew */
    MC_CHECK(seen || (lo != hi && v >= lo - 3 - hi / 110 && v <= hi + 3 + hi / 110), "melody", "frame %d (%.0f ms of the tune): the output is %d, the melody calls for %d", f, t, v, val(t, from));
}
static int ntitle; static char title[64];
static void meta(E_EAS_METADATA_TYPE t, char *m, EAS_VOID_PTR p) { if (t == EAS_METADATA_TITLE) { ntitle++; snprintf(title, sizeof title, "%s", m); } }
enum { NMODE = 6 };
static const char *const MODE[] = { "played", "length asked first", "located into", "located back", "repeated", "paused" };
static void play(int mode, int ftype, const char *want) {
    int tl = NTL; (void)tl; for (int i = 0; i < NTL; i++) (void)measure(TL[i].key, TL[i].vel);
    fresh(); EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef, &em, W.b, W.n), &h); MC_CHECK(r == EAS_SUCCESS && h, "open", "a well-formed file is refused: %ld", (long)r);
    r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "a well-formed file cannot be prepared: %ld", (long)r);
    EAS_I32 ft = 0; r = EAS_GetFileType(E, h, &ft); MC_CHECK(r == EAS_SUCCESS && ft == ftype, "type", "file type %ld, not %d", (long)ft, ftype);
    double from = 0; int reps = 1;
    if (mode == 1) {
        static char buf[40]; r = EAS_RegisterMetaDataCallback(E, h, meta, buf, sizeof buf, NULL); MC_CHECK(r == EAS_SUCCESS, "register", "registering for texts failed: %ld", (long)r);
        ntitle = 0; EAS_I32 len = -1; r = EAS_ParseMetaData(E, h, &len); MC_CHECK(r == EAS_SUCCESS, "length", "EAS_ParseMetaData failed: %ld", (long)r);
        if (!endless) MC_CHECK(fabs(len - now_) < 4, "length", "the tune is said to last %ld ms, it lasts %.0f", (long)len, now_);
        if (want) MC_CHECK(ntitle >= 1 && !strcmp(title, want), "title", "the title is \"%s\", not \"%s\" (%d reports)", title, want, ntitle);
    }
    if (mode == 2 || mode == 3) {
        if (now_ < 60) { EAS_CloseFile(E, h); EAS_Shutdown(E); mc_skip(); }
        from = floor(now_ * (mode == 2 ? .55 : .3)); if (mode == 3) { double far = floor(now_ * .7); int n = (int)(far / 2 / T); for (int k = 0; k < n; k++) sut_render(); }
        r = EAS_Locate(E, h, (EAS_I32)from, EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "locate", "EAS_Locate failed: %ld", (long)r);
        if (endless) from = -1;
    }
    if (mode == 4) { if (endless) mc_skip(); r = EAS_SetRepeat(E, h, 1); MC_CHECK(r == EAS_SUCCESS, "repeat", "EAS_SetRepeat failed: %ld", (long)r); reps = 2; }
    if (from < 0) { EAS_CloseFile(E, h); EAS_Shutdown(E); mc_skip(); }
    double span = now_ - from; EAS_STATE st = -1; int cap = 1500;
    if (mode == 5) {        /* paused where no note begins, silent, and resumed there; a note that was sounding is not struck again */
        int n = (int)(now_ / T), p = n / 2; if (p > 300) p = 300; for (; p > 2; p--) { int ok = 1; for (int i = 0; i < NTL; i++) if (fabs(TL[i].t0 - p * T) < 3.5 * T) ok = 0; if (ok) break; }
        if (p <= 2) { EAS_CloseFile(E, h); EAS_Shutdown(E); mc_skip(); }
        for (int f = 0; f < p; f++) { sut_render(); frame_ok(f * T, 0, f, 1.6 * T); }
        r = EAS_Pause(E, h); MC_CHECK(r == EAS_SUCCESS, "pause", "EAS_Pause failed: %ld", (long)r);
        for (int f = 0; f < 3; f++) sut_render();
        for (int f = 0; f < 4 + p % 9; f++) { sut_render(); MC_CHECK(pcm_silent(), "pause", "sound while paused"); }
        r = EAS_State(E, h, &st); MC_CHECK(r == EAS_SUCCESS && st == EAS_STATE_PAUSED, "pause", "state %ld while paused", (long)st);
        r = EAS_Resume(E, h); MC_CHECK(r == EAS_SUCCESS, "resume", "EAS_Resume failed: %ld", (long)r);
        from = p * T; span = now_ - from;
    }
    for (int rep = 0; rep < reps; rep++) {
        int n = (int)(span / T), f0 = mode == 2 || mode == 3, f;      /* the first frame after a location does not advance */
        if (rep == 0) for (f = -f0; f < n - (mode == 5 ? 3 : 2) && f < cap; f++) { sut_render(); frame_ok(from + f * T, from, f, mode == 5 ? 2.6 * T : 1.6 * T); if (f == n / 2 && mode < 2) { r = EAS_State(E, h, &st); MC_CHECK(r == EAS_SUCCESS && st == EAS_STATE_PLAY, "state", "state %ld in the middle of the tune", (long)st); } }
        if (endless || n > cap) break;
        if (rep == 0 && reps == 2) {          /* the second pass starts again from the top, within a few frames of the end of the first */
            int lag, first = NTL && TL[0].t0 == 0 ? measure(TL[0].key, TL[0].vel) : 0; for (f = 0; f < 3; f++) sut_render();
            if (!first || first == val(span - 1, 0)) break;          /* cannot be told where it starts */
            for (lag = -1; lag < 10; lag++) { if (near(sut_last(0), first)) break; sut_render(); }
            MC_CHECK(lag < 10, "repeat", "a repeated tune does not start again");
            for (f = 1; f < n - 4 && f < cap; f++) { sut_render(); frame_ok(f * T, 0, f, 3.5 * T); }
            break;
        }
        for (f = 0; f < 2; f++) sut_render();
        for (f = 0; f < 12; f++) { r = EAS_State(E, h, &st); MC_CHECK(r == EAS_SUCCESS, "state", "EAS_State failed"); if (st == EAS_STATE_STOPPED) break; MC_CHECK(st == EAS_STATE_PLAY || st == EAS_STATE_STOPPING, "state", "state %ld at the end of the tune", (long)st); sut_render(); }
        MC_CHECK(st == EAS_STATE_STOPPED, "end", "the tune of %.0f ms does not stop at its end", now_); sut_render(); MC_CHECK(pcm_silent(), "end", "sound after the end of the tune");
    }
    r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "closing failed: %ld", (long)r); r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "%d blocks are left", mc_live());
    mc_outcome(mc_hash(TL, (int)sizeof *TL * NTL, 5)); mc_count(MODE[mode], 1);
}
static void begin(void) { W.n = 0; NTL = 0; now_ = 0; endless = 0; }
static void txt(const char *s) { by_put(&W, s, (int)strlen(s)); }
static void twice(int times) { int n = NTL; double len = now_; for (int k = 1; k < times; k++) { for (int i = 0; i < n && NTL < 3990; i++) { TL[NTL] = TL[i]; TL[NTL].t0 += len * k; TL[NTL].t1 += len * k; NTL++; } } now_ = len * times; }
static void spread(int from, double t0, int times) { int n = NTL; double len = now_ - t0; for (int k = 1; k < times; k++) for (int i = from; i < n && NTL < 3990; i++) { TL[NTL] = TL[i]; TL[NTL].t0 += len * k; TL[NTL].t1 += len * k; NTL++; } now_ = t0 + len * times; }

/* building a file for its description only must not skip the case */
static int desc;
#define SKIP do { if (desc) return; mc_skip(); } while (0)

/* ---- RTTTL ---- */
static struct { int d, o, b, l; char s; } rt; static int spaced;
static const int SEMI[] = { 9, 11, 0, 2, 4, 5, 7, 11 };
static double rest_of(char s, double ms) { return s == 'n' ? ms / 16 : s == 's' ? ms / 2 : 0; }
/* one note: duration (0 default), letter 0-7 or 8 = pause, sharp, octave (0 default), dot (0 no, 1 after the letter, 2 last) */
static void rnote(int d, int n, int sharp, int o, int dot, int last) {
    char b[32]; int k = 0; if (d) k += sprintf(b + k, "%d", d); if (spaced) b[k++] = ' '; b[k++] = n == 8 ? 'p' : (char)('a' + n); if (spaced & 2) b[k - 1] = (char)toupper((u8)b[k - 1]);
    if (sharp) b[k++] = '#'; if (dot == 1) b[k++] = '.'; if (o) { if (spaced) b[k++] = '\t'; k += sprintf(b + k, "%d", o); } if (dot == 2) b[k++] = '.'; if (!last || spaced) b[k++] = ','; if (spaced) b[k++] = '\n'; b[k] = 0; txt(b);
    double ms = 240000. / rt.b / (d ? d : rt.d); if (dot) ms *= 1.5;
    if (n == 8) note(ms, 0, -1, 0); else note(ms, rest_of(rt.s, ms), 12 * (o ? o : rt.o) + SEMI[n] + sharp + 12, 127);
}
static void rhead(const char *fields) { txt("Tune 1:"); if (spaced) txt(" "); txt(fields); txt(":"); if (spaced) txt("\r\n"); }
static void rdef(int d, int o, int b, char s) { char f[64]; rt.d = d; rt.o = o; rt.b = b; rt.s = s; rt.l = 0; sprintf(f, spaced ? "d = %d, O=%d ,b= %d, s=%c" : "d=%d,o=%d,b=%d,s=%c", d, o, b, s); rhead(f); }
static const int DUR[] = { 0, 1, 2, 4, 8, 16, 32 };
static void r_one(u64 i) {
    int mode = (int)(i % 2); i /= 2; spaced = (int)(i % 4); i /= 4; int dot = (int)(i % 3); i /= 3; int o = (int)(i % 5); i /= 5; int sh = (int)(i % 2); i /= 2; int d = DUR[i % 7]; i /= 7; int n = (int)i;
    begin(); rdef(16, 5, d == 1 || d == 2 ? 400 : 100, 'c'); if (n == 8 && (sh || o)) SKIP; rnote(d, n, sh, o ? o + 3 : 0, dot, 0); rnote(8, 4, 0, 0, 0, 0); rnote(d, n, sh, o ? o + 3 : 0, dot, 1);
}
#define NR1 ((u64)9 * 7 * 2 * 5 * 3 * 4 * 2)
static void run_r1(u64 i) { r_one(i); play((int)(i % 2), EAS_FILE_RTTTL, "Tune 1"); }
static void d_txt(char *b, size_t c) { by_u8(&W, 0); snprintf(b, c, "%s", (char *)W.b); W.n--; for (char *p = b; *p; p++) if (*p == '\n' || *p == '\r' || *p == '\t') *p = '|'; }
static void d_r1(u64 i, char *b, size_t c) { desc = 1; r_one(i); desc = 0; d_txt(b, c); }
/* sequences of notes and changes of octave, tempo and style */
enum { NRT = 15 };
static int rl, rdurtail;
static void r_tok(int k, int last) {
    static const char sty[] = "nsc";
    switch (k) {
    case 0: rnote(0, 2, 0, 0, 0, last); break;      case 1: rnote(0, 1, 0, 0, 0, last); break;     case 2: rnote(8, 7, 0, 6, 0, last); break;
    case 3: rnote(0, 3, 1, 0, 2, last); break;      case 4: rnote(0, 1, 0, 4, 0, last); break;     case 5: rnote(32, 8, 0, 0, 0, last); break;
    case 6: rnote(0, 0, 1, 7, 1, last); break;      case 7: rnote(4, 5, 0, 5, 0, last); break;     case 8: rnote(0, 8, 0, 0, 1, last); break;
    case 9: rt.o = 4; txt("o4,"); break;            case 10: rt.o = 7; txt(spaced ? " O7 ,\n" : "o7,"); break;
    case 11: rt.b = 200; txt("b200,"); break;       case 12: rt.b = 63; txt("b63,"); break;
    default: rt.s = sty[k - 13]; { char b[8]; sprintf(b, "s%c,", rt.s); txt(b); } break;
    }
}
static void r_seq(u64 i) { begin(); int mode = (int)(i % NMODE); (void)mode; u64 j = i / NMODE; spaced = (int)(j / 7 % 4); rdef(16, 5, 125, 'c'); for (int k = 0; k < rl; k++) { r_tok((int)(j % NRT), k == rl - 1); j /= NRT; } }
static void run_rs(u64 i) { r_seq(i); play((int)(i % NMODE), EAS_FILE_RTTTL, "Tune 1"); }
static void d_rs(u64 i, char *b, size_t c) { desc = 1; r_seq(i); desc = 0; d_txt(b, c); size_t l = strlen(b); snprintf(b + l, c - l, " (%s)", MODE[i % NMODE]); }
/* headers: the fields in any order, any of them missing except duration and octave; loops */
static void r_head(u64 i) {
    static const int OCT[] = { 4, 5, 6, 7 }, BPM[] = { 63, 40, 112, 200 }, LOOP[] = { -1, 0, 1, 3, 15 }; static const char STY[] = "nsc"; u64 j = i / NMODE; char f[5][12], all[80] = ""; int nf = 0, ord[5] = { 0, 1, 2, 3, 4 };
    spaced = 0; begin(); rt.d = 1 << (2 + j % 4); j /= 4; rt.o = OCT[j % 4]; j /= 4; int b = (int)(j % 4); j /= 4; int s = (int)(j % 4); j /= 4; int l = LOOP[j % 5]; j /= 5; rt.b = BPM[b]; rt.s = s == 3 ? 'n' : STY[s];
    int pm = (int)(j % 120); for (int k = 5; k > 1; k--) { int q = pm % k; pm /= k; int t = ord[k - 1]; ord[k - 1] = ord[q]; ord[q] = t; }
    for (int q = 0; q < 5; q++) switch (ord[q]) { case 0: sprintf(f[nf++], "d=%d", rt.d); break; case 1: sprintf(f[nf++], "o=%d", rt.o); break; case 2: if (b) sprintf(f[nf++], "b=%d", rt.b); break; case 3: if (s < 3) sprintf(f[nf++], "s=%c", STY[s]); break; default: if (l >= 0) sprintf(f[nf++], "l=%d", l); }
    for (int q = 0; q < nf; q++) { if (q) strcat(all, ","); strcat(all, f[q]); }
    rhead(all); rnote(0, 2, 0, 0, 0, 0); rnote(16, 8, 0, 0, 0, 0); rnote(16, 6, 1, 0, 0, 1); if (l > 0) { twice(l == 15 ? 20 : l + 1); endless = l == 15; }
}
#define NRH ((u64)4 * 4 * 4 * 4 * 5 * 120 * NMODE)
static void run_rh(u64 i) { if (!mc_thorough && i / NMODE % 7) mc_skip(); r_head(i); play((int)(i % NMODE), EAS_FILE_RTTTL, "Tune 1"); }
static void d_rh(u64 i, char *b, size_t c) { desc = 1; r_head(i); desc = 0; d_txt(b, c); size_t l = strlen(b); snprintf(b + l, c - l, " (%s)", MODE[i % NMODE]); }

/* ---- iMelody ---- */
static struct { int o, v, b, s; } im; static int wrap;
static double istyle(double ms) { return im.s == 0 ? ms / 16 : im.s == 2 ? ms / 2 : 0; }
static int ivel(int v) { return v ? v * 4 + 67 : 0; }
static void inote(int acc, int n, int d, int mod) {           /* n 0-6 or 7 = rest */
    char b[8]; int k = 0; if (acc < 0) b[k++] = '&'; if (acc > 0) b[k++] = '#'; b[k++] = n == 7 ? 'r' : (char)('a' + n); b[k++] = (char)('0' + d); if (mod) b[k++] = ".:;"[mod - 1]; b[k] = 0; txt(b);
    double ms = 240000. / im.b / (1 << d); if (mod == 1) ms *= 1.5; if (mod == 2) ms *= 1.75; if (mod == 3) ms *= 683 / 1024.;
    if (n == 7) note(ms, 0, -1, 0); else note(ms, istyle(ms), 12 * (im.o + 1) + SEMI[n] + acc, ivel(im.v));
}
static const char *ieol(void) { return wrap & 1 ? "\r\n" : "\n"; }
static void ihead(int b, int s, int v) {
    char f[200], *e = f; im.o = 4; im.v = v < 0 ? 7 : v; im.b = b ? b : 120; im.s = s < 0 ? 0 : s; const char *n = ieol();
    e += sprintf(e, "BEGIN:IMELODY%sVERSION:1.2%sFORMAT:CLASS1.0%sNAME:Tune 2%s", n, n, n, n); if (b) e += sprintf(e, "BEAT:%d%s", b, n); if (s >= 0) e += sprintf(e, "STYLE:S%d%s", s, n); if (v >= 0) e += sprintf(e, "VOLUME:V%d%s", v, n); sprintf(e, "MELODY:"); txt(f);
}
static void itail(void) { txt(ieol()); txt("END:IMELODY"); if (wrap & 2) txt(ieol()); if (wrap & 4) txt("c3d3"); }
static void i_one(u64 i) {
    u64 j = i / NMODE; wrap = (int)(i % 8); begin(); int acc = (int)(j % 3) - 1; j /= 3; int mod = (int)(j % 4); j /= 4; int d = (int)(j % 6); j /= 6; int o = (int)(j % 6) + 3; j /= 6; int n = (int)j; if (n == 7 && (acc || o > 3)) SKIP;
    ihead(d < 2 ? 400 : 100, 1, -1); char b[4]; sprintf(b, "*%d", o); txt(b); im.o = o; inote(acc, n, d, mod); inote(0, 4, 4, 0); inote(0, n, d, 0); itail();
}
#define NI1 ((u64)8 * 3 * 4 * 6 * 6 * NMODE)
static void run_i1(u64 i) { i_one(i); play((int)(i % NMODE), EAS_FILE_IMELODY, "Tune 2"); }
static void d_i1(u64 i, char *b, size_t c) { desc = 1; i_one(i); desc = 0; d_txt(b, c); size_t l = strlen(b); snprintf(b + l, c - l, " (%s)", MODE[i % NMODE]); }
enum { NIT = 17 };
static int il;
static void i_seq(u64 i) {
    u64 j = i / NMODE; begin(); wrap = (int)(j % 8); int wpos = (int)(j / 8 % 5); ihead(125, wrap & 2 ? -1 : 1, wrap & 4 ? -1 : 9); int open = -1, v0 = im.v, depth0 = 0; double ot = 0; (void)depth0;
    for (int k = 0; k < il; k++) {
        int t = (int)(j % NIT); j /= NIT;
        switch (t) {
        case 0: inote(0, 2, 4, 0); break;   case 1: inote(0, 1, 4, 0); break;   case 2: inote(-1, 4, 3, 1); break;   case 3: inote(1, 5, 5, 2); break;  case 4: inote(0, 7, 4, 0); break;  case 5: inote(0, 0, 3, 3); break;
        case 6: im.o = 3; txt("*3"); break; case 7: im.o = 6; txt("*6"); break; case 8: im.v = 15; txt("V15"); break; case 9: if (im.v < 15) im.v++; txt("V+"); break; case 10: if (im.v) im.v--; txt("V-"); break; case 11: im.v = 2; txt("V2"); break;
        case 12: txt("ledonbackoff"); break; case 13: txt("vibeoff"); break;
        case 14: if (open >= 0) SKIP; open = NTL; ot = now_; txt("("); break;
        default: { if (open < 0 || now_ == ot || im.o != 4 || im.v != v0) SKIP; int n = t == 15 ? 1 : 3; char b[8]; sprintf(b, "@%d)", n); txt(b); spread(open, ot, n + 1); open = -1; } break;
        }
        if (k == wpos) txt(ieol());
    }
    if (open >= 0) SKIP; inote(0, 3, 4, 0); itail();
}
static void run_is(u64 i) { i_seq(i); play((int)(i % NMODE), EAS_FILE_IMELODY, "Tune 2"); }
static void d_is(u64 i, char *b, size_t c) { desc = 1; i_seq(i); desc = 0; d_txt(b, c); size_t l = strlen(b); snprintf(b + l, c - l, " (%s)", MODE[i % NMODE]); }
static void i_head(u64 i) {
    static const int BPM[] = { 0, 25, 63, 120, 240, 900 }; u64 j = i / NMODE; begin(); wrap = (int)(j % 8); j /= 8; int b = BPM[j % 6]; j /= 6; int s = (int)(j % 4) - 1; j /= 4; int v = (int)(j % 16); j /= 16; int e = (int)j; ihead(b, s, v ? v : -1);
    int d = b == 25 ? 4 : b == 900 ? 2 : 3; if (e == 0) { inote(0, 2, d, 0); inote(1, 6, d, 0); } else { inote(0, 2, d, 0); txt("("); int o = NTL; double t = now_; inote(0, 0, d, 0); if (e == 1) { txt("@0)"); spread(o, t, 20); endless = 1; } else { txt("@12)"); spread(o, t, 13); inote(0, 5, d, 0); } }
    itail();
}
#define NIH ((u64)8 * 6 * 4 * 16 * 3 * NMODE)
static void run_ih(u64 i) { i_head(i); play((int)(i % NMODE), EAS_FILE_IMELODY, "Tune 2"); }
static void d_ih(u64 i, char *b, size_t c) { desc = 1; i_head(i); desc = 0; d_txt(b, c); size_t l = strlen(b); snprintf(b + l, c - l, " (%s)", MODE[i % NMODE]); }

/* ---- Nokia smart messaging ---- */
static u32 bacc; static int bn; static struct { int scale, bpm, style, vel; } ot;
static void bit(u32 v, int n) { for (int i = n - 1; i >= 0; i--) { bacc = bacc << 1 | (v >> i & 1); if (++bn == 8) { by_u8(&W, (int)(bacc & 255)); bn = 0; bacc = 0; } } }
static const int OBPM[32] = { 25, 28, 31, 35, 40, 45, 50, 56, 63, 70, 80, 90, 100, 112, 125, 140, 160, 180, 200, 225, 250, 285, 320, 355, 400, 450, 500, 565, 635, 715, 800, 900 };
static void ohead(int npat, int kind) {      /* kind 0 temporary song, 1 basic song with a title, 2 with a Unicode title */
    static const char t[] = "Tune 3"; bn = 0; by_u8(&W, kind == 2 ? 3 : 2); by_u8(&W, 0x4a); if (kind == 2) by_u8(&W, 0x44); bit(0x1d, 7); bit(kind ? 1 : 2, 3); if (kind) { bit(6, 4); for (int k = 0; k < 6; k++) { if (kind == 2) bit(0, 8); bit((u8)t[k], 8); } }
    bit((u32)npat, 8); ot.scale = 0; ot.bpm = 63; ot.style = 0; ot.vel = 95;
}
static void onote(int n, int d, int mod) { bit(1, 3); bit((u32)n, 4); bit((u32)d, 3); bit((u32)mod, 2); double ms = 240000. / ot.bpm / (1 << d); if (mod == 1) ms *= 1.5; if (mod == 2) ms *= 1.75; if (mod == 3) ms *= 683 / 1024.; if (!n) note(ms, 0, -1, 0); else note(ms, ot.style == 0 ? ms / 16 : ot.style == 2 ? ms / 2 : 0, 59 + 12 * ot.scale + n, ot.vel); }
static void oscale(int s) { bit(2, 3); bit((u32)s, 2); ot.scale = s; }
static void ostyle(int s) { bit(3, 3); bit((u32)s, 2); ot.style = s; }
static void otempo(int t) { bit(4, 3); bit((u32)t, 5); ot.bpm = OBPM[t]; }
static void ovol(int v) { bit(5, 3); bit((u32)v, 4); ot.vel = v ? v * 4 + 67 : 0; }
static void opat(int id, int loop, int len) { bit(0, 3); bit((u32)id, 2); bit((u32)loop, 4); bit((u32)len, 8); }
static void oend(void) { while (bn) bit(0, 1); by_u8(&W, 0); }
static void d_ota(char *b, size_t c, int m) { snprintf(b, c, "OTA %s (%s)", hex(W.b, W.n), MODE[m]); }
static void o_one(u64 i) {
    u64 j = i / NMODE; begin(); int kind = (int)(j % 3); int mod = (int)(j % 4); j /= 4; int d = (int)(j % 6); j /= 6; int sc = (int)(j % 4); j /= 4; int st = (int)(j % 3); j /= 3; int n = (int)j;
    ohead(1, kind); opat(0, 0, 7); otempo(d < 2 ? 24 : 12); ostyle(1); oscale(sc); onote(n, d, mod); ostyle(st); onote(5, 3, 0); onote(n, d, 0); oend();
}
#define NO1 ((u64)13 * 3 * 4 * 6 * 4 * NMODE)
static void run_o1(u64 i) { o_one(i); play((int)(i % NMODE), EAS_FILE_OTA, i / NMODE % 3 == 1 ? "Tune 3" : NULL); }
static void d_o1(u64 i, char *b, size_t c) { desc = 1; o_one(i); desc = 0; d_ota(b, c, (int)(i % NMODE)); }
static void o_val(u64 i) { u64 j = i / NMODE; begin(); int t = (int)(j % 32); j /= 32; int v = (int)j; ohead(1, 1); opat(0, 0, 6); ostyle(1); otempo(t); ovol(v); int d = t < 6 ? 5 : t < 24 ? 3 : 2; onote(3, d, 0); ovol(15 - v); onote(8, d, 0); oend(); }
static void run_ov(u64 i) { o_val(i); play((int)(i % NMODE), EAS_FILE_OTA, "Tune 3"); }
static void d_ov(u64 i, char *b, size_t c) { desc = 1; o_val(i); desc = 0; d_ota(b, c, (int)(i % NMODE)); }
/* songs of several patterns: each defines one or repeats an earlier one, any of them looped */
typedef struct { int kind, note[3], len, used; } pat;
static void pnotes(const pat *p) { if (p->kind == 1) onote(p->note[0], 4, 0); else if (p->kind == 2) { onote(p->note[0], 4, 0); onote(0, 5, 0); onote(p->note[1], 4, 0); } else { oscale(1); onote(p->note[0], 4, 0); oscale(0); onote(p->note[1], 5, 1); } }
static void o_pat(u64 i, int np) {
    static const int LOOP[] = { 0, 1, 3 }; u64 j = i / NMODE; begin(); ohead(np + 1, 1); opat(3, 0, 3); otempo(14); ostyle(1); onote(12, 4, 0); pat P[4]; memset(P, 0, sizeof P); P[3] = (pat){ .kind = 9, .used = 1 }; (void)P[3];
    for (int k = 0; k < np; k++) {
        int id = (int)(j % 3); j /= 3; int what = (int)(j % 4); j /= 4; int loop = LOOP[j % 3]; j /= 3; int s = NTL; double t = now_; bytes keep; int kb; u32 ka;
        if (what < 3) { P[id].kind = what + 1; P[id].used = 1; P[id].note[0] = 1 + 3 * k; P[id].note[1] = 2 + 3 * k; opat(id, loop, (int[]){ 1, 3, 4 }[what]); pnotes(&P[id]); }
        else { if (!P[id].used) SKIP; opat(id, loop, 0); keep = W; kb = bn; ka = bacc; int n0 = W.n; pnotes(&P[id]); W.n = n0; bn = kb; bacc = ka; (void)keep; }
        spread(s, t, loop + 1);
    }
    oend();
}
enum { NOT = 13 };
static int ol;
static void o_seq(u64 i) {       /* a note by default, then any instructions, then a note again */
    u64 j = i / NMODE; begin(); ohead(1, 1); opat(0, 0, ol + 3); otempo(16); onote(5, 4, 0);
    for (int k = 0; k < ol; k++, j /= NOT) switch (j % NOT) {
    case 0: onote(1, 4, 0); break; case 1: onote(12, 5, 1); break; case 2: onote(7, 3, 3); break; case 3: onote(0, 5, 2); break; case 4: onote(0, 4, 0); break;
    case 5: oscale(1); break; case 6: oscale(3); break; case 7: ostyle(0); break; case 8: ostyle(1); break; case 9: ostyle(2); break; case 10: ovol(15); break; case 11: ovol(2); break; default: otempo(21); break; }
    onote(3, 4, 0); oend();
}
static void run_os(u64 i) { o_seq(i); play((int)(i % NMODE), EAS_FILE_OTA, "Tune 3"); }
static void d_os(u64 i, char *b, size_t c) { desc = 1; o_seq(i); desc = 0; d_ota(b, c, (int)(i % NMODE)); }
static int onp;
static void run_op(u64 i) { o_pat(i, onp); play((int)(i % NMODE), EAS_FILE_OTA, "Tune 3"); }
static void d_op(u64 i, char *b, size_t c) { desc = 1; o_pat(i, onp); desc = 0; d_ota(b, c, (int)(i % NMODE)); }

void mc_body(void) {
    const S_EAS_LIB_CONFIG *cf = EAS_Config(); T = cf->mixBufferSize * 1000. / cf->sampleRate; CAL = mc_big(sizeof(int[KHI - KLO + 1][128])); bank_make();
    for (int k = KLO; k <= KHI; k++) for (int v = 0; v < 128; v++) if (v == 127 || v == 95 || (v >= 71 && v % 4 == 3)) (void)measure(k, v);
    int L = mc_thorough ? 4 : 3; static char nm[4][8][20];
    mc_bound("every ringtone note (letter, sharp, octave, duration, dot) and sequences of up to %d of 15 tokens; every iMelody note and sequences of up to %d of 17 tokens; every OTA note, tempo and volume, sequences of up to %d of 13 instructions, songs of up to 3 patterns; %d usages (played, length asked, located into, located back, repeated, paused)", L, L + 1, L + 1, NMODE);
    mc_space a = { .name = "RTTTL note", .n = NR1, .run = run_r1, .describe = d_r1, .cpu_limit = 10 }; mc_enumerate(&a);
    for (rl = 1; rl <= L; rl++) { u64 n = NMODE; for (int k = 0; k < rl; k++) n *= NRT; snprintf(nm[0][rl], 20, "RTTTL tokens %d", rl); mc_space b = { .name = nm[0][rl], .n = n, .run = run_rs, .describe = d_rs, .cpu_limit = 10 }; mc_enumerate(&b); }
    mc_space c = { .name = "RTTTL header", .n = NRH, .run = run_rh, .describe = d_rh, .cpu_limit = 10 }; mc_enumerate(&c);
    mc_space d = { .name = "iMelody note", .n = NI1, .run = run_i1, .describe = d_i1, .cpu_limit = 10 }; mc_enumerate(&d);
    for (il = 1; il <= L + 1; il++) { u64 n = NMODE; for (int k = 0; k < il; k++) n *= NIT; snprintf(nm[1][il], 20, "iMelody tokens %d", il); mc_space b = { .name = nm[1][il], .n = n, .run = run_is, .describe = d_is, .cpu_limit = 10 }; mc_enumerate(&b); }
    mc_space e = { .name = "iMelody header", .n = NIH, .run = run_ih, .describe = d_ih, .cpu_limit = 10 }; mc_enumerate(&e);
    mc_space f = { .name = "OTA note", .n = NO1, .run = run_o1, .describe = d_o1, .cpu_limit = 10 }; mc_enumerate(&f);
    mc_space g = { .name = "OTA tempo and volume", .n = (u64)32 * 16 * NMODE, .run = run_ov, .describe = d_ov, .cpu_limit = 10 }; mc_enumerate(&g);
    for (ol = 1; ol <= L + 1; ol++) { u64 n = NMODE; for (int k = 0; k < ol; k++) n *= NOT; snprintf(nm[3][ol], 20, "OTA tokens %d", ol); mc_space b = { .name = nm[3][ol], .n = n, .run = run_os, .describe = d_os, .cpu_limit = 10 }; mc_enumerate(&b); }
    for (onp = 1; onp <= 3; onp++) { u64 n = NMODE; for (int k = 0; k < onp; k++) n *= 3 * 4 * 3; snprintf(nm[2][onp], 20, "OTA patterns %d", onp); mc_space b = { .name = nm[2][onp], .n = n, .run = run_op, .describe = d_op, .cpu_limit = 10 }; mc_enumerate(&b); }
}
