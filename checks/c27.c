/* C27: songs inside other files: finding the header, and playing from there as from a file of its own. */
#include "sut.h"
const char mc_property[] = "C27";
static bytes song, song2; static EAS_FILE ff[4]; static mc_file fm[4]; static bytes wrap;
static u64 plainhash; static int plainlen; 
static EAS_DATA_HANDLE I[2]; static EAS_HANDLE S[2];
static void start(int i, int search) { sut_init(); sut_dry(); I[i] = E; EAS_RESULT r = EAS_SetHeaderSearchFlag(E, search); MC_CHECK(r == EAS_SUCCESS, "flag", "EAS_SetHeaderSearchFlag returned %ld", (long)r); }
static u64 listen(EAS_HANDLE h, int n) {
    EAS_I32 len = -1; EAS_RESULT r = EAS_ParseMetaData(E, h, &len); MC_CHECK(r == EAS_SUCCESS, "length", "EAS_ParseMetaData returned %ld", (long)r);
    u64 x = (u64)len; for (int i = 0; i < n; i++) x = sut_render_hash(x); return x;
}
static EAS_RESULT try_open(const bytes *b, EAS_HANDLE *h) { *h = NULL; return EAS_OpenFile(E, sut_file(&ff[1], &fm[1], b->b, b->n), h); }
static void expect(const bytes *b, int search, int recognised, const char *what) {
    EAS_HANDLE h; start(0, search); long live = mc_live(); EAS_RESULT r = try_open(b, &h);
    if (!recognised) {
        MC_CHECK(r == EAS_ERROR_UNRECOGNIZED_FORMAT, "recognised", "%s: EAS_OpenFile returned %ld", what, (long)r); MC_CHECK(mc_live() == live, "leak", "%s: refused, memory left allocated", what);
        for (int i = 0; i < 4; i++) { r = try_open(&song, &h); MC_CHECK(r == EAS_SUCCESS, "streams", "%s: %d files after a refused one: EAS_OpenFile returned %ld", what, i + 1, (long)r); }
        return;
    }
    MC_CHECK(r == EAS_SUCCESS && h, "open", "%s: EAS_OpenFile returned %ld", what, (long)r); r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "%s: EAS_Prepare returned %ld", what, (long)r);
    EAS_I32 t = -1; r = EAS_GetFileType(E, h, &t); MC_CHECK(r == EAS_SUCCESS && (t == EAS_FILE_SMF0 || t == EAS_FILE_SMF1), "type", "%s: EAS_GetFileType %ld, type %ld", what, (long)r, (long)t);
    MC_CHECK(listen(h, 12) == plainhash, "sound", "%s: the song does not play as it does alone", what);
}
/* ---- every short text before the header ---- */
static const char ALPHA[] = "MThdx";
static int word(u64 i, char *o) { int n = 0; u64 c = 1; while (i >= c) { i -= c; c *= 5; n++; } for (int k = 0; k < n; k++) { o[k] = ALPHA[i % 5]; i /= 5; } o[n] = 0; return n; }
static void prefix(u64 i) {
    char w[32], t[40]; int n = word(i, w); snprintf(t, sizeof t, "after '%s'", w);
    wrap.n = 0; by_put(&wrap, w, n); by_put(&wrap, song.b, song.n); if (strstr(w, "MThd")) mc_skip();
    expect(&wrap, 1, 1, t); expect(&wrap, 0, n == 0, t);
    wrap.n = 0; by_put(&wrap, w, n); by_put(&wrap, "MTh", n & 3); expect(&wrap, 1, strstr((wrap.b[wrap.n] = 0, (char *)wrap.b), "MThd") != NULL, t);
}
static void prefix_describe(u64 i, char *o, size_t n) { char w[32]; word(i, w); snprintf(o, n, "'%s' before the header", w); }
/* ---- any amount of data before and after ---- */
static void amount(u64 i) {
    int before = (int)(i / 6) % 1030, after = (int[]){ 0, 1, 7, 8, 9, 4000 }[i % 6]; char t[60]; snprintf(t, sizeof t, "%d bytes before, %d after", before, after);
    wrap.n = 0; for (int k = 0; k < before; k++) by_u8(&wrap, (k * 37 + before) & 0xff); if (before && memmem(wrap.b, (size_t)wrap.n, "MThd", 4)) mc_skip();
    by_put(&wrap, song.b, song.n); for (int k = 0; k < after; k++) by_u8(&wrap, k % 5 ? 0xff : 0x90);
    expect(&wrap, 1, 1, t); expect(&wrap, 0, before == 0, t);
}
static void amount_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%d bytes before, %d after", (int)(i / 6) % 1030, (int[]){ 0, 1, 7, 8, 9, 4000 }[i % 6]); }
/* ---- far into the file ---- */
static int farat(u64 i) { return (1 << (11 + i / 5)) + (int)(i % 5) - 2; }
static void far_(u64 i) { int n = farat(i); char t[40]; snprintf(t, sizeof t, "%d bytes before", n); bytes b = { 0 }; for (int k = 0; k < n; k++) by_u8(&b, k % 251); by_put(&b, song.b, song.n); expect(&b, 1, 1, t); expect(&b, 0, 0, t); by_free(&b); }
static void far_describe(u64 i, char *o, size_t n) { snprintf(o, n, "%d bytes before the song", farat(i)); }
/* ---- histories: both files do the same ---- */
static const int BEFORE[] = { 20, 1, 300 }; static int which;
enum { RENDER, RENDER9, PAUSE, RESUME, LOC0, LOC30, LOC110, LOCM40, REPEAT, RATE, LEN, FLAG, REOPEN, LIVE, CHEAT, NOPS };
static struct { EAS_HANDLE live[2]; u8 flag; } M; static bytes emb[3];
static const char *opname(int o) { return (const char *[]){ "render", "render 9 frames", "pause", "resume", "locate 0", "locate 30", "locate 110", "locate -40", "repeat 1", "rate 2", "length", "header search on/off", "close and open again", "live stream on the file, note", "second song opened and closed" }[o]; }
static void open2(int i) { E = I[i]; EAS_RESULT r = EAS_SetHeaderSearchFlag(E, EAS_TRUE); EAS_HANDLE h = NULL; const bytes *b = i ? &emb[which] : &song2; r = EAS_OpenFile(E, sut_file(&ff[i], &fm[i], b->b, b->n), &h); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenFile returned %ld", (long)r); r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "EAS_Prepare returned %ld", (long)r); S[i] = h; }
static int enabled(int o, int at) { (void)at; return o != LIVE || !M.live[0]; }
static u64 apply1(int i, int o) {
    E = I[i]; EAS_RESULT r = 0; EAS_I32 v = -1; u64 x = 0; EAS_HANDLE h = NULL;
    switch (o) {
    case RENDER: x = sut_render_hash(3); break; case RENDER9: for (int k = 0; k < 9; k++) x = sut_render_hash(x); break;
    case PAUSE: r = EAS_Pause(E, S[i]); break; case RESUME: r = EAS_Resume(E, S[i]); break;
    case LOC0: r = EAS_Locate(E, S[i], 0, 0); break; case LOC30: r = EAS_Locate(E, S[i], 30, 0); break; case LOC110: r = EAS_Locate(E, S[i], 110, 0); break; case LOCM40: r = EAS_Locate(E, S[i], -40, 1); break;
    case REPEAT: r = EAS_SetRepeat(E, S[i], 1); break; case RATE: r = EAS_SetPlaybackRate(E, S[i], 1 << 29); break; case LEN: r = EAS_ParseMetaData(E, S[i], &v); break;
    case FLAG: r = EAS_SetHeaderSearchFlag(E, M.flag); break;
    case REOPEN: if (M.live[i]) { r = EAS_CloseMIDIStream(E, M.live[i]); M.live[i] = NULL; } r = EAS_CloseFile(E, S[i]); open2(i); break;
    case LIVE: r = EAS_OpenMIDIStream(E, &M.live[i], S[i]); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenMIDIStream on a file returned %ld", (long)r); sut_w3(M.live[i], 0x92, 70, 100); break;
    case CHEAT: { EAS_SetHeaderSearchFlag(E, EAS_TRUE); const bytes *b = i ? &emb[which] : &song2; r = EAS_OpenFile(E, sut_file(&ff[2 + i], &fm[2 + i], b->b, b->n), &h); if (!r) { EAS_Prepare(E, h); EAS_CloseFile(E, h); } EAS_SetHeaderSearchFlag(E, M.flag); break; }
    }
    EAS_STATE st = -1; EAS_State(E, S[i], &st); EAS_I32 t = -1; EAS_GetLocation(E, S[i], &t);
    i64 y[4] = { r, v, (i64)st, t }; return mc_hash(y, sizeof y, x);
}
static void apply(int o) { if (o == FLAG) M.flag ^= 1; u64 a = apply1(0, o), b = apply1(1, o); MC_CHECK(a == b, "history", "%s: the song inside another file does not do as it does alone", opname(o)); }
static void leaf(void) { for (int k = 0; k < 30; k++) apply(RENDER); }
static void setup(void) { memset(&M, 0, sizeof M); for (int i = 0; i < 2; i++) { start(i, 1); open2(i); } M.flag = 1; }
static void make(bytes *o, int two) {
    smf_head(o, two, 1 + two, 96); int m = smf_trk(o); smf_tempo(o, 0, 300000); smf_ev2(o, 0, 0xc0, 16); smf_ev3(o, 1, 0x90, 60, 127); smf_ev3(o, 9, 0x90, 64, 100); smf_ev3(o, 11, 0x80, 60, 0); smf_eot(o, 20); smf_endtrk(o, m);
    if (two) { m = smf_trk(o); smf_ev2(o, 2, 0xc1, 80); smf_ev3(o, 3, 0x91, 50, 90); smf_tempo(o, 9, 200000); smf_ev3(o, 9, 0x91, 52, 90); smf_eot(o, 30); smf_endtrk(o, m); }
}
void mc_body(void) {
    make(&song, 0); make(&song2, 1); by_put(&wrap, song.b, song.n); for (int i = 0; i < 6000; i++) by_u8(&wrap, 0);
    /* a RIFF file of MIDI data, one odd byte, and noise with pieces of headers */
    by_put(&emb[0], "RIFF", 4); by_le32(&emb[0], (u32)song2.n + 12); by_put(&emb[0], "RMIDdata", 8); by_le32(&emb[0], (u32)song2.n); by_put(&emb[0], song2.b, song2.n);
    by_put(&emb[1], "M", 1); by_put(&emb[1], song2.b, song2.n);
    for (int i = 0; i < 60; i++) by_put(&emb[2], "MTrMT", 5); by_put(&emb[2], song2.b, song2.n); by_put(&emb[2], "MTrk\0\0\0\4\0\xff\x2f\0", 12);
    { mc_snap *s = mc_save(NULL); u64 *k = mc_big(8); start(0, 0); EAS_HANDLE h = sut_open(sut_file(&ff[0], &fm[0], song.b, song.n)); *k = listen(h, 12); mc_restore(s); plainhash = *k; mc_snap_free(s); }
    int w = mc_thorough ? 8 : 6, d = mc_thorough ? 8 : 6; u64 n = 0, c = 1; for (int k = 0; k <= w; k++) n += c, c *= 5;
    mc_bound("every text of up to %d of the letters M T h d x before the header; 0 to 1029 bytes before and 6 lengths of data after the song; 2^11 to 2^21 bytes before, give or take 2; 3 wrapped files and every sequence of %d operations up to depth %d", w, NOPS, d);
    mc_space a = { .name = "text before the header", .n = n, .run = prefix, .describe = prefix_describe }; mc_enumerate(&a);
    mc_space b = { .name = "data before and after", .n = 1030 * 6, .run = amount, .describe = amount_describe }; mc_enumerate(&b);
    mc_space c2 = { .name = "far into the file", .n = 5 * 11, .run = far_, .describe = far_describe, .cpu_limit = 60 }; mc_enumerate(&c2);
    mc_model x = { .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    static const char *nm[] = { "RIFF file", "one byte before", "pieces of headers before" };
    for (which = 0; which < 3; which++) { x.name = nm[which]; mc_explore(&x); }
}
