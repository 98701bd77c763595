/* C28: the meta data callback is told every text of the file it should be told, once, when it is passed. */
#include "sut.h"
const char mc_property[] = "C28";
#define NLOG 64
typedef struct { int type, user, len; u64 text; } rec;
static struct { rec r[NLOG]; int n; } LOG; static const char *bad;
static char *cur_buf; static int cur_size, cur_user;
static void cb(E_EAS_METADATA_TYPE t, char *b, EAS_VOID_PTR u) {
    if (LOG.n >= NLOG) { bad = "called over and over"; return; }
    if (b != cur_buf) { bad = "called with another buffer than the one registered"; return; }
    int n = (int)strnlen(b, (size_t)cur_size); if (n >= cur_size) { bad = "the text is not terminated inside the buffer"; return; }
    LOG.r[LOG.n++] = (rec){ (int)t, *(int*)u, n, mc_hash(b, (size_t)n, 3) };
}
static int users[3] = { 11, 22, 33 };
static int type_of(int meta) { return meta == 3 ? EAS_METADATA_TITLE : meta == 1 ? EAS_METADATA_TEXT : meta == 2 ? EAS_METADATA_COPYRIGHT : meta == 5 ? EAS_METADATA_LYRIC : -1; }
static EAS_FILE ff; static mc_file fm;
/* ---- every type, length and buffer size ---- */
static const int LEN[] = { 0, 1, 2, 3, 30, 31, 32, 33, 127, 128, 200, 299 }, SIZE[] = { 1, 2, 3, 32, 33, 128, 300 };
#define NLEN 12
#define NSIZE 7
static u8 text_at(int i) { return (u8)(i % 31 == 30 ? 0xf0 + i % 16 : 33 + i % 90); }
static void one(u64 i) {
    int meta = (int)(i % 128), len = LEN[i / 128 % NLEN], size = SIZE[i / 128 / NLEN % NSIZE], where = (int)(i / 128 / NLEN / NSIZE);
    if (meta == 0x2f || meta == 0x51 || (meta == 0x58)) mc_skip();
    u8 t[300]; for (int k = 0; k < len; k++) t[k] = text_at(k);
    bytes b = { 0 }; smf_head(&b, where == 2, where == 2 ? 2 : 1, 100); int m = smf_trk(&b); smf_tempo(&b, 0, 500000);
    if (where == 2) { smf_eot(&b, 20); smf_endtrk(&b, m); m = smf_trk(&b); }
    smf_ev3(&b, 0, 0x90, 60, 100); if (where == 1) { u8 rs[] = { 64, 90 }; smf_ev(&b, 1, rs, 2); }
    smf_meta(&b, 3, meta, t, len); smf_ev3(&b, 2, 0x90, 67, 100); smf_eot(&b, 6); smf_endtrk(&b, m);
    u8 *buf = mc_sut_malloc((size_t)size + 64); u64 snd[2];
    for (int with = 0; with < 2; with++) {
        memset(&LOG, 0, sizeof LOG); memset(buf, 0x77, (size_t)size + 64); bad = NULL; cur_buf = (char*)buf + 32; cur_size = size;
        sut_init(); EAS_HANDLE h = sut_open(sut_file(&ff, &fm, b.b, b.n)); EAS_I32 ms;
        if (with) { EAS_RESULT r = EAS_RegisterMetaDataCallback(E, h, cb, cur_buf, size, &users[i % 3]); MC_CHECK(r == EAS_SUCCESS, "register", "EAS_RegisterMetaDataCallback returned %ld", (long)r); }
        for (int pass = 0; pass < 2; pass++) {
            LOG.n = 0; snd[with] = 5;
            if (!pass) { EAS_RESULT r = EAS_ParseMetaData(E, h, &ms); MC_CHECK(r == EAS_SUCCESS, "measure", "EAS_ParseMetaData returned %ld", (long)r); } else for (int k = 0; k < 16; k++) snd[with] = sut_render_hash(snd[with]);
            if (bad) mc_fail("callback", "%s", bad);
            int want = with && type_of(meta) >= 0;
            if (LOG.n != want) mc_fail("times", "%s the file: the callback was called %d times for one event, expected %d", pass ? "playing" : "measuring", LOG.n, want);
            if (want) {
                int cut = len < size - 1 ? len : size - 1; rec *r = &LOG.r[0];
                MC_CHECK(r->type == type_of(meta), "type", "event type %d is reported as %d", meta, r->type);
                MC_CHECK(r->user == users[i % 3], "user", "the user data is not that registered");
                MC_CHECK(r->len == cut && r->text == mc_hash(t, (size_t)cut, 3), "text", "of a text of %d bytes with a buffer of %d bytes %d bytes are reported%s", len, size, r->len, r->len == cut ? ", with other contents" : "");
            }
            for (int k = 0; k < 32; k++) MC_CHECK(buf[k] == 0x77 && buf[32 + size + k] == 0x77, "overrun", "a text of %d bytes was written outside the buffer of %d bytes", len, size);
        }
        EAS_CloseFile(E, h); EAS_Shutdown(E);
    }
    MC_CHECK(snd[0] == snd[1], "sound", "with a callback the file sounds different");
    by_free(&b);
}
static void one_describe(u64 i, char *o, size_t n) { static const char *W[] = { "one track", "after running status", "second track" }; snprintf(o, n, "meta event %d of %d bytes, buffer of %d bytes, %s", (int)(i % 128), LEN[i / 128 % NLEN], SIZE[i / 128 / NLEN % NSIZE], W[i / 128 / NLEN / NSIZE]); }
/* ---- when ---- */
#define NEV 9
static const struct { int frame, meta; const char *t; } EV[NEV] = { { 0, 3, "title" }, { 2, 1, "first" }, { 2, 5, "same tick" }, { 5, 5, "ly-" }, { 5, 4, "an instrument" }, { 7, 5, "ric" }, { 12, 2, "(c)" }, { 20, 1, "a rather long text, longer than the buffer" }, { 26, 6, "marker" } };
static bytes song; static double FR;
static struct { EAS_HANDLE h; int reg, rep, paused, unknown; double pos; struct { rec r[NLOG]; int n; } want; } M; static char bufs[2][64];
static const int BSZ[2] = { 40, 8 };
static double ev_ms(int k) { return EV[k].frame ? (EV[k].frame + 0.5) * FR : 0; }
#define END (29.5 * FR)
static void expect(double from, double to) {
    for (int k = 0; k < NEV; k++) if (ev_ms(k) >= from && ev_ms(k) < to && M.reg && type_of(EV[k].meta) >= 0 && M.want.n < NLOG) {
        int n = (int)strlen(EV[k].t), size = BSZ[M.reg - 1]; if (n > size - 1) n = size - 1;
        M.want.r[M.want.n++] = (rec){ type_of(EV[k].meta), users[M.reg - 1], n, mc_hash(EV[k].t, (size_t)n, 3) };
    }
}
static void verify(const char *what) {
    if (bad) mc_fail("callback", "%s", bad);
    for (int k = 0; k < LOG.n && k < M.want.n; k++) { rec *a = &LOG.r[k], *b = &M.want.r[k]; if (a->type != b->type || a->user != b->user || a->len != b->len || a->text != b->text) mc_fail("order", "%s: report %d is of type %d, %d bytes, user %d; expected type %d, %d bytes, user %d", what, k, a->type, a->len, a->user, b->type, b->len, b->user); }
    if (LOG.n != M.want.n) mc_fail("when", "%s: %d texts reported, %d are due", what, LOG.n, M.want.n);
    LOG.n = 0; M.want.n = 0; memset(&LOG, 0, sizeof LOG); memset(&M.want, 0, sizeof M.want);
}
static void frame(void) {
    EAS_I32 was, t; EAS_GetLocation(E, M.h, &was); sut_render(); EAS_GetLocation(E, M.h, &t);
    if (t < was) { expect(M.pos, END + 1); M.pos = 0; if (M.rep > 0) M.rep--; }        /* started again */
    else if (t != was || t) { double to = M.pos >= END ? M.pos : t; if (to < M.pos) to = M.pos; expect(M.pos, to); M.pos = to; }
    verify("render");
}
enum { R1, R3, R8, L0, L29, L58, L128, MEAS, REG1, REG2, REG0, PAUSE, RESUME, REP, NOPS };
static const char *opname(int o) { static const char *N[] = { "render 1", "render 3", "render 8", "locate 0", "locate 29", "locate 58", "locate 128", "measure", "register callback", "register another buffer", "register no callback", "pause", "resume", "repeat 1" }; return N[o]; }
static int enabled(int o, int at) { (void)at; if (o == MEAS) return !M.paused; if (o == PAUSE) return !M.paused && M.pos < END - 3 * FR; if (o == RESUME) return M.paused; if (o >= L0 && o <= L128) return !M.unknown; return 1; }
static void loc(int ms) {
    EAS_I32 was; EAS_GetLocation(E, M.h, &was); EAS_RESULT r = EAS_Locate(E, M.h, ms, EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "locate", "EAS_Locate returned %ld", (long)r);
    if (ms == was) { verify("locate"); return; }
    expect(0, ms);       /* a seek goes through the file from its start */ M.pos = ms; verify("locate");
}
static void reg(int k) {
    if (k) { cur_buf = bufs[k - 1]; cur_size = BSZ[k - 1]; } EAS_RESULT r = EAS_RegisterMetaDataCallback(E, M.h, k ? cb : NULL, k ? cur_buf : NULL, k ? cur_size : 0, k ? &users[k - 1] : NULL);
    MC_CHECK(r == EAS_SUCCESS, "register", "EAS_RegisterMetaDataCallback returned %ld", (long)r); M.reg = k;
}
static void apply(int o) {
    EAS_I32 ms; EAS_RESULT r;
    switch (o) {
    case R1: frame(); break; case R3: for (int k = 0; k < 3; k++) frame(); break; case R8: for (int k = 0; k < 8; k++) frame(); break;
    case L0: loc(0); break; case L29: loc(29); break; case L58: loc(58); break; case L128: loc(128); break;
    case MEAS: r = EAS_ParseMetaData(E, M.h, &ms); MC_CHECK(r == EAS_SUCCESS, "measure", "EAS_ParseMetaData returned %ld", (long)r); expect(0, END + 1); M.pos = 0; verify("measure"); break;
    case REG1: reg(1); break; case REG2: reg(2); break; case REG0: reg(0); break;
    case PAUSE: r = EAS_Pause(E, M.h); if (r == EAS_SUCCESS) M.paused = 1; break; case RESUME: r = EAS_Resume(E, M.h); MC_CHECK(r == EAS_SUCCESS, "resume", "EAS_Resume returned %ld", (long)r); M.paused = 0; break;
    case REP: EAS_SetRepeat(E, M.h, 1); M.rep = 1; break;
    }
}
static void leaf(void) { if (M.paused) { EAS_Resume(E, M.h); M.paused = 0; } for (int k = 0; k < 40; k++) frame(); }
static void setup(void) { memset(&M, 0, sizeof M); memset(&LOG, 0, sizeof LOG); bad = NULL; sut_init(); sut_dry(); M.h = sut_open(sut_file(&ff, &fm, song.b, song.n)); }
void mc_body(void) {
    const S_EAS_LIB_CONFIG *cf = EAS_Config(); FR = 1000.0 * (double)cf->mixBufferSize / (double)cf->sampleRate;
    /* 1/8 of a frame per tick; texts alternate between two tracks */
    smf_head(&song, 1, 3, 100); int m = smf_trk(&song); smf_tempo(&song, 0, (u32)(FR / 8 * 100 * 1000)); smf_eot(&song, 0); smf_endtrk(&song, m);
    for (int t = 0; t < 2; t++) { m = smf_trk(&song); u32 at = 0; for (int k = 0; k < NEV; k++) if (k < 3 ? (k == 2) == t : k % 2 == !t) { u32 tk = EV[k].frame ? (u32)EV[k].frame * 8 + 4 : 0; smf_meta(&song, tk - at, EV[k].meta, EV[k].t, (int)strlen(EV[k].t)); at = tk; } smf_eot(&song, 29 * 8 + 4 - at); smf_endtrk(&song, m); }
    int d = mc_thorough ? 8 : 6;
    mc_bound("all meta event types x 12 lengths x 7 buffer sizes x 3 places, measured and played; a song of 9 texts: every sequence of rendering, seeking, measuring, registering, pausing and repeating up to depth %d, each state then played to the end", d);
    mc_space s = { .name = "events", .n = 128 * NLEN * NSIZE * 3, .run = one, .describe = one_describe }; mc_enumerate(&s);
    mc_model x = { .name = "when", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 }; mc_explore(&x);
}
