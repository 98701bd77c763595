/* C33: an XMF file plays exactly as the MIDI file inside it, with the DLS collection inside it, wherever in the file they are. */
#include "sut.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
const char mc_property[] = "C33";
enum { MAXN = 256 };
typedef struct { const bytes *data; int ref, kid[6], nkid, meta; u32 at; } xnode;       /* data NULL: a folder */
static xnode N[MAXN]; static int nn;
static void v3(bytes *o, u32 v) { by_u8(o, 0x80 | (v >> 14 & 0x7f)); by_u8(o, 0x80 | (v >> 7 & 0x7f)); by_u8(o, v & 0x7f); }
static int hdr(const xnode *x) { return 3 + 1 + 1 + 1 + x->meta + 1; }
static int size(int i) { xnode *x = &N[i]; int s = hdr(x) + 1; if (x->data) s += x->ref ? 3 : x->data->n; else for (int k = 0; k < x->nkid; k++) s += size(x->kid[k]); return s; }
static void put(bytes *o, int i) {
    xnode *x = &N[i]; v3(o, (u32)size(i)); by_u8(o, x->data ? 0 : x->nkid); by_u8(o, hdr(x)); by_u8(o, x->meta); for (int k = 0; k < x->meta; k++) by_u8(o, 0x41 + k); by_u8(o, 0); by_u8(o, x->data && x->ref ? 2 : 1);
    if (!x->data) for (int k = 0; k < x->nkid; k++) put(o, x->kid[k]); else if (x->ref) v3(o, x->at); else by_put(o, x->data->b, x->data->n);
}
static int leaf(const bytes *d, int ref, int meta) { N[nn] = (xnode){ .data = d, .ref = ref, .meta = meta }; return nn++; }
static int folder(int meta) { N[nn] = (xnode){ .meta = meta }; return nn++; }
static void under(int f, int k) { N[f].kid[N[f].nkid++] = k; }
static bytes smf[4], dls[3], other[3], W[2];
typedef struct { int ver, what, pm, pd, oth, pad, types, song, mode; } xcase;
enum { NMODE = 7 };
static const char *const VER[] = { "XMF_1.00", "XMF_1.01", "XMF_2.00" }, *const WHAT[] = { "a song", "sounds, then a song", "a song, then sounds" }, *const PL[] = { "inline", "referenced", "inline in a folder", "referenced from a folder in a folder" }, *const OTH[] = { "", ", a text first", ", a wave in between", ", another file last" },
    *const MODE[] = { "played", "length and texts asked", "located", "repeated", "paused", "beside another file", "closed while it plays" };
static xcase dec(u64 i) { xcase c; c.mode = (int)(i % NMODE); i /= NMODE; c.ver = (int)(i % 3); i /= 3; c.what = (int)(i % 3); i /= 3; c.pm = (int)(i % 4); i /= 4; c.pd = (int)(i % 4); i /= 4; c.oth = (int)(i % 4); i /= 4; c.pad = (int)(i % 4); i /= 4; c.types = (int)(i % 2); i /= 2; c.song = (int)i; return c; }
#define NC ((u64)NMODE * 3 * 3 * 4 * 4 * 4 * 4 * 2 * 4)
static void wrap(int root, int place, const bytes *d, int pad) {
    int l = leaf(d, place & 1, pad); for (int k = place >> 2; k > 0; k--) { int f = folder(k & 1); under(root, f); root = f; } place &= 3; if (place < 2) { under(root, l); return; } int f = folder(2); under(root, f); if (place == 3) { int g = folder(0); under(f, g); f = g; } under(f, l);
}
static void xmf(bytes *o, const xcase *c, int song, int sounds) {
    o->n = 0; nn = 0; int root = folder(c->pad & 1 ? 3 : 0);
    if (c->oth == 1) under(root, leaf(&other[0], 0, 0)); if (c->what == 1) wrap(root, c->pd, &dls[sounds], c->pad); if (c->oth == 2) under(root, leaf(&other[1], c->pad & 1, 1)); wrap(root, c->pm, &smf[song], c->pad ^ 2); if (c->what == 2) wrap(root, c->pd, &dls[sounds], c->pad); if (c->oth == 3) under(root, leaf(&other[2], 0, 0));
    by_put(o, VER[c->ver], 8); if (c->ver == 2) { by_be32(o, 2); by_be32(o, 1); }
    int tree = o->n + 3 + 1 + (c->types ? 5 : 0) + 3 + 3, len = size(root), at = tree + len + c->pad; for (int k = 0; k < nn; k++) if (N[k].data && N[k].ref) { N[k].at = (u32)at; at += N[k].data->n; }
    v3(o, (u32)at); by_u8(o, c->types ? 5 : 0); if (c->types) by_put(o, "\4\1x\0\2", 5); v3(o, (u32)tree); v3(o, (u32)(tree + len - 1)); put(o, root); for (int k = 0; k < c->pad; k++) by_u8(o, 0x4d);
    for (int k = 0; k < nn; k++) if (N[k].data && N[k].ref) by_put(o, N[k].data->b, N[k].data->n);
    MC_CHECK(o->n == at, "harness", "the file has %d bytes, not %d", o->n, at);
}
static EAS_FILE ef[4]; static mc_file em[4];
static u64 texts; static int ntext;
static void meta(E_EAS_METADATA_TYPE t, char *m, EAS_VOID_PTR p) { texts = mc_hash(m, (int)strlen(m), texts * 7 + (u64)t); ntext++; }
typedef struct { u64 h[420]; int n; EAS_I32 len, type, loc, st; } rec;
static EAS_HANDLE openx(int slot, const bytes *x, const bytes *d) {
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef[slot], &em[slot], x->b, x->n), &h); MC_CHECK(r == EAS_SUCCESS && h, "open", "a well-formed file is refused: %ld", (long)r);
    r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "a well-formed file cannot be prepared: %ld", (long)r); if (d) sut_dls(h, d); return h;
}
static void fr(rec *q, int n) { while (n-- > 0 && q->n < 420) q->h[q->n] = sut_render_hash(11), q->n++; }
static void use(rec *q, int mode, const bytes *x, const bytes *d, const bytes *x2, const bytes *d2) {
    q->n = 0; q->len = q->loc = q->st = -1; EAS_HANDLE h2 = NULL; EAS_RESULT r; static char buf[32]; sut_init();
    if (mode == 5) h2 = openx(2, x2, d2); EAS_HANDLE h = openx(0, x, d); r = EAS_GetFileType(E, h, &q->type); MC_CHECK(r == EAS_SUCCESS, "type", "the type of a prepared file is not known");
    if (mode == 1) { texts = 0; ntext = 0; r = EAS_RegisterMetaDataCallback(E, h, meta, buf, sizeof buf, NULL); MC_CHECK(r == EAS_SUCCESS, "register", "registering for texts failed: %ld", (long)r); r = EAS_ParseMetaData(E, h, &q->len); MC_CHECK(r == EAS_SUCCESS, "length", "EAS_ParseMetaData failed: %ld", (long)r); q->h[q->n++] = texts * 3 + (u64)ntext; }
    if (mode == 2) { r = EAS_Locate(E, h, 250, EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "locate", "EAS_Locate failed: %ld", (long)r); fr(q, 30); r = EAS_Locate(E, h, 90, EAS_FALSE); MC_CHECK(r == EAS_SUCCESS, "locate", "EAS_Locate back failed: %ld", (long)r); fr(q, 20); }
    if (mode == 3) { r = EAS_SetRepeat(E, h, 2); MC_CHECK(r == EAS_SUCCESS, "repeat", "EAS_SetRepeat failed"); }
    if (mode == 4) { fr(q, 12); r = EAS_Pause(E, h); MC_CHECK(r == EAS_SUCCESS, "pause", "EAS_Pause failed: %ld", (long)r); fr(q, 6); r = EAS_Resume(E, h); MC_CHECK(r == EAS_SUCCESS, "resume", "EAS_Resume failed: %ld", (long)r); }
    if (mode == 6) { fr(q, 14); r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseFile failed: %ld", (long)r); fr(q, 6); h = openx(0, x2, d2); fr(q, 30); }
    if (mode == 3) fr(q, 360); else fr(q, 110);
    if (mode != 6) { r = EAS_GetLocation(E, h, &q->loc); MC_CHECK(r == EAS_SUCCESS, "location", "EAS_GetLocation failed"); r = EAS_State(E, h, &q->st); MC_CHECK(r == EAS_SUCCESS, "state", "EAS_State failed"); }
    r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseFile failed: %ld", (long)r); fr(q, 4); if (h2) { r = EAS_CloseFile(E, h2); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseFile failed: %ld", (long)r); }
    r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "%d blocks are left", mc_live());
}
static rec *A, *B;
static void run(u64 i) { void one(xcase); one(dec(i)); }
void one(xcase c) {
    if (c.what == 0 && c.pd) mc_skip();
    xmf(&W[0], &c, c.song, 0); xcase o = c; o.what = c.what ? 3 - c.what : 0; o.pm ^= 1; xmf(&W[1], &o, c.song ^ 1, 1); int s = c.what != 0;
    use(A, c.mode, &smf[c.song], s ? &dls[0] : NULL, &smf[c.song ^ 1], s ? &dls[1] : NULL); use(B, c.mode, &W[0], NULL, &W[1], NULL);
    MC_CHECK(B->type == (A->type == EAS_FILE_SMF0 ? EAS_FILE_XMF0 : EAS_FILE_XMF1), "type", "an XMF file of a song of type %ld is said to be of type %ld", (long)A->type, (long)B->type);
    MC_CHECK(A->len == B->len, "length", "the song lasts %ld ms, in the XMF file %ld", (long)A->len, (long)B->len); MC_CHECK(A->loc == B->loc, "location", "the song is at %ld ms, in the XMF file at %ld", (long)A->loc, (long)B->loc); MC_CHECK(A->st == B->st, "state", "the song is in state %ld, in the XMF file in %ld", (long)A->st, (long)B->st);
    for (int k = 0; k < A->n; k++) MC_CHECK(A->h[k] == B->h[k], "sound", "from frame %d on the XMF file does not sound as the song with its sounds", k);
    mc_outcome(mc_hash(A->h, (int)sizeof(u64) * A->n, 3)); mc_count(MODE[c.mode], 1);
}
/* deep in folders: up to 100 levels */
static xcase ndec(u64 i) { xcase c; memset(&c, 0, sizeof c); c.what = (int)(i % 3); i /= 3; c.pm = (int)(i & 1); i >>= 1; c.pd = (int)(i & 1); i >>= 1; c.ver = 2; int k = (int)(i % 99), w = (int)(i / 99); c.mode = k % 3 ? 0 : 2; if (w != 1) c.pm |= k << 2; if (w != 0) c.pd |= k << 2; return c; }
static void run_deep(u64 i) { one(ndec(i)); }
static void d_deep(u64 i, char *b, size_t n) { xcase c = ndec(i); snprintf(b, n, "%s: song %s %d folders deep, sounds %s %d folders deep, %s", WHAT[c.what], PL[c.pm & 1], 1 + (c.pm >> 2), PL[c.pd & 1], 1 + (c.pd >> 2), MODE[c.mode]); }
static void d(u64 i, char *b, size_t n) { xcase c = dec(i); snprintf(b, n, "%s: %s (song %s, sounds %s)%s, padding %d%s, song %d, %s", VER[c.ver], WHAT[c.what], PL[c.pm], PL[c.pd], OTH[c.oth], c.pad, c.types ? ", metadata types" : "", c.song, MODE[c.mode]); }
void mc_body(void) {
    A = mc_big(sizeof *A); B = mc_big(sizeof *B);
    for (int s = 0; s < 4; s++) {
        bytes *o = &smf[s]; int f = s >> 1; smf_head(o, f, 1 + f, 96); int m = smf_trk(o); smf_meta(o, 0, 3, s & 1 ? "Odd" : "Even", s & 1 ? 3 : 4); smf_tempo(o, 0, 300000); if (f) { smf_eot(o, 10); smf_endtrk(o, m); m = smf_trk(o); }
        smf_ev2(o, 0, 0xc0, s & 1 ? 3 : 5); smf_ev3(o, 0, 0x90, 60, 100); if (s & 1) smf_ev3(o, 0, 0x92, 50, 99); smf_ev2(o, 10, 0xc1, 5); smf_ev3(o, 0, 0x91, 64, 90); smf_ev3(o, 30, 0x80, 60, 0); smf_ev2(o, 5, 0xc0, 40); smf_ev3(o, 10, 0x90, 67, 110); smf_ev3(o, 10, 0x99, 38, 120); smf_ev3(o, 40 + s, 0x80, 67, 0); smf_ev3(o, 0, 0x81, 64, 0); smf_eot(o, 8); smf_endtrk(o, m);
    }
    for (int s = 0; s < 2; s++) { const dc_note t[] = { { .bank = 0, .prog = 0, .klo = 0, .khi = 127, .level = 700 + 450 * s }, { .bank = 0, .prog = 3, .klo = 0, .khi = 127, .level = 3000 + 2000 * s }, { .bank = 0, .prog = 5, .klo = 0, .khi = 62, .level = 900 + 100 * s }, { .bank = 0, .prog = 5, .klo = 63, .khi = 127, .level = 1500 - 300 * s } }; dc_bank(&dls[s], t, 4, dls_flat, dls_nflat); }
    by_put(&other[0], "some text of odd length.", 23); by_put(&other[1], "RIFF\20\0\0\0WAVEfmt \4\0\0\0abcd", 24); by_put(&other[2], "\x89PNG\r\n\x1a\nMThdRIFF", 16);
    mc_bound("every file of: 3 XMF versions x {song, sounds + song, song + sounds} x 4 placements each x 4 kinds of further content x 4 paddings (odd and even offsets) x metadata type tables x 4 songs (format 0 and 1) x %d usages; songs and sounds alone or together, inline or referenced, in 0 to 98 folders", NMODE);
    mc_space dp = { .name = "folders", .n = 12 * 99 * 3, .run = run_deep, .describe = d_deep, .cpu_limit = 10 }; mc_enumerate(&dp);
    mc_space a = { .name = "layouts", .n = NC, .run = run, .describe = d, .cpu_limit = 10 }; mc_enumerate(&a);
}
