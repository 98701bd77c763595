/* C02: a broken DLS collection never harms the process or the instance. */
#include "robust.h"
const char mc_property[] = "C02";
#define NF 3
static bytes F[NF], W; static EAS_FILE ef; static mc_file em;
static int ck_(bytes *o, const char *id) { by_put(o, id, 4); by_le32(o, 0); return o->n; }
static int ls_(bytes *o, const char *id, const char *form) { int m = ck_(o, id); by_put(o, form, 4); return m; }
static void ke_(bytes *o, int m) { u32 n = (u32)(o->n - m); u8 *p = o->b + m - 4; p[0] = (u8)n; p[1] = (u8)(n >> 8); p[2] = (u8)(n >> 16); p[3] = (u8)(n >> 24); if (n & 1) by_u8(o, 0); }
static const short S16[] = { 1000, 2000, 3000, 4000, -1000, -2000, -3000, -4000, 500, 100 };
static const u8 S8[] = { 1, 60, 128, 200, 255, 128, 7 };
static void wsmp(bytes *o, int unity, int loop, int ls, int ll) { int m = ck_(o, "wsmp"); by_le32(o, 20); by_le16(o, unity); by_le16(o, 3); by_le32(o, (u32)-400000); by_le32(o, 0); by_le32(o, loop); if (loop) { by_le32(o, 16); by_le32(o, 0); by_le32(o, ls); by_le32(o, ll); } ke_(o, m); }
static void wave(bytes *o, int bits, const void *d, int n, int loop, int ls, int ll) {
    int w = ls_(o, "LIST", "wave"), m = ck_(o, "fmt "); by_le16(o, 1); by_le16(o, 1); by_le32(o, 22050); by_le32(o, 22050 * bits / 8); by_le16(o, bits / 8); by_le16(o, bits); ke_(o, m);
    if (loop >= 0) wsmp(o, 60, loop, ls, ll);
    m = ck_(o, "data"); by_put(o, d, n); ke_(o, m); ke_(o, w);
}
static void art(bytes *o, int two, int n) {
    int l = ls_(o, "LIST", two ? "lar2" : "lart"), m = ck_(o, two ? "art2" : "art1"); by_le32(o, 8); by_le32(o, (u32)n);
    static const u16 D[][3] = { { 0, 0, 0x206 }, { 0, 0, 0x209 }, { 0, 0, 0x20a }, { 1, 0, 3 }, { 5, 0, 0x30e } };
    for (int i = 0; i < n; i++) { by_le16(o, D[i][0]); by_le16(o, D[i][1]); by_le16(o, D[i][2]); by_le16(o, 0); by_le32(o, i == 2 ? 500 << 16 : 0xe0000000u); }
    ke_(o, m); ke_(o, l);
}
static void rgn(bytes *o, int two, int lo, int hi, int wave_, int w, int a) {
    int g = ls_(o, "LIST", two ? "rgn2" : "rgn "), m = ck_(o, "rgnh"); by_le16(o, lo); by_le16(o, hi); by_le16(o, 0); by_le16(o, 127); by_le16(o, 1); by_le16(o, two); ke_(o, m);
    if (w) wsmp(o, 58, 1, 2, 4);
    m = ck_(o, "wlnk"); by_le16(o, 0); by_le16(o, 0); by_le32(o, 1); by_le32(o, wave_); ke_(o, m);
    if (a) art(o, two, 1);
    ke_(o, g);
}
static void ins(bytes *o, u32 bank, int prog, int nr, int kind) {
    int i = ls_(o, "LIST", "ins "), m = ck_(o, "insh"); by_le32(o, nr); by_le32(o, bank); by_le32(o, prog); ke_(o, m);
    int l = ls_(o, "LIST", "lrgn");
    if (kind == 0) { rgn(o, 0, 0, 60, 0, 0, 0); rgn(o, 0, 61, 127, 1, 0, 1); } else if (kind == 1) rgn(o, 1, 0, 127, 0, 1, 0); else { for (int k = 0; k < nr; k++) rgn(o, 0, 36 + k, 36 + k, k % 2, 0, 0); }
    ke_(o, l); if (kind != 2) art(o, kind, 3); ke_(o, i);
}
static void cdl(bytes *o, int n) {      /* condition: constants and one operation each */
    int m = ck_(o, "cdl "); by_le16(o, 0x10); by_le32(o, 1); for (int i = 0; i < n; i++) { by_le16(o, 0x10); by_le32(o, 3 + i); by_le16(o, 1 + i); } ke_(o, m);
}
static void file(bytes *o, int kind) {
    int riff = ls_(o, "RIFF", "DLS "), m = ck_(o, "colh"), l; by_le32(o, kind == 2 ? 1 : 2); ke_(o, m);
    l = ls_(o, "LIST", "lins");
    if (kind == 0) { ins(o, 0, 0, 2, 0); ins(o, 0x80000000u, 0, 2, 2); } else if (kind == 1) { ins(o, 0, 0, 1, 1); ins(o, 0x7f01, 5, 2, 0); } else ins(o, 0, 0, 2, 3);
    ke_(o, l);
    m = ck_(o, "ptbl"); by_le32(o, 8); by_le32(o, 2); int pt = o->n; by_le32(o, 0); by_le32(o, 0); ke_(o, m);
    l = ls_(o, "LIST", "wvpl"); int base = o->n;
    wave(o, 16, S16, 20, kind == 2 ? -1 : 1, 2, 6); u32 off = (u32)(o->n - base); o->b[pt + 4] = (u8)off; o->b[pt + 5] = (u8)(off >> 8);
    wave(o, 8, S8, 7, kind == 1 ? 1 : 0, 1, 5);
    ke_(o, l); ke_(o, riff);
}
enum { NMODE = 3 };
static void play(EAS_HANDLE h) {
    static const u8 msg[][3] = { { 0x90, 60, 100 }, { 0x90, 72, 90 }, { 0x99, 36, 100 }, { 0x99, 37, 100 }, { 0x91, 0, 127 }, { 0x91, 127, 127 } };
    (void)h; for (int i = 0; i < 6; i++) { u8 t[3]; memcpy(t, msg[i], 3); (void)EAS_WriteMIDIStream(E, h, t, 3); }
    u8 pc[5] = { 0xb2, 0, 0x7f, 0xb2, 32 }, p2[4] = { 1, 0xc2, 5, 0x92 }, p3[2] = { 64, 80 }; EAS_WriteMIDIStream(E, h, pc, 5); EAS_WriteMIDIStream(E, h, p2, 4); EAS_WriteMIDIStream(E, h, p3, 2);
    for (int i = 0; i < 3; i++) (void)soft_render();
    u8 off[] = { 0x80, 60, 0, 72, 0, 0x89, 36, 0, 0xb1, 120, 0 }; EAS_WriteMIDIStream(E, h, off, sizeof off);
    for (int i = 0; i < 2; i++) (void)soft_render();
}
static void feed(const bytes *b, int n, int mode) {
    EAS_HANDLE h = NULL, f = NULL; EAS_RESULT r;
    sut_init(); sut_dry();
    if (mode == 1) { /* into a stream that is playing */
        f = sut_open(sut_file(&gfile, &gmem, good.b, good.n)); sut_render(); sut_render();
        r = EAS_LoadDLSCollection(E, f, sut_file(&ef, &em, b->b, n));
        mc_count(r == EAS_SUCCESS ? "accepted" : "rejected", 1); mc_outcome((u64)r);
        EAS_RESULT o = EAS_OpenMIDIStream(E, &h, f); MC_CHECK(o == EAS_SUCCESS, "open-midi", "EAS_OpenMIDIStream returned %ld", (long)o);
        play(h);
        r = EAS_CloseMIDIStream(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseMIDIStream returned %ld", (long)r);
        r = EAS_CloseFile(E, f); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseFile returned %ld", (long)r);
        probe("broken collection loaded into another stream");
    } else {
        if (mode == 2) { r = EAS_LoadDLSCollection(E, NULL, sut_file(&ef, &em, F[0].b, F[0].n)); MC_CHECK(r == EAS_SUCCESS, "good-dls", "a good collection was refused: %ld", (long)r); h = sut_midi(); u8 t[3] = { 0x90, 60, 100 }; sut_write(h, t, 3); sut_render(); }
        r = EAS_LoadDLSCollection(E, NULL, sut_file(&ef, &em, b->b, n));
        mc_count(r == EAS_SUCCESS ? "accepted" : "rejected", 1); mc_outcome((u64)r); int ok = r == EAS_SUCCESS;
        if (h) { play(h); r = EAS_CloseMIDIStream(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseMIDIStream returned %ld", (long)r); }
        h = sut_midi(); play(h); r = EAS_CloseMIDIStream(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "EAS_CloseMIDIStream returned %ld", (long)r);
        if (!ok && mode == 0) probe("broken collection");
    }
    all_done();
}
static int cur;
static void run_byte(u64 i) { int p = (int)(i >> 8), v = (int)(i & 255); bytes *f = &F[cur]; memcpy(W.b, f->b, (size_t)f->n); W.b[p] = (u8)v; feed(&W, f->n, (p + v) % NMODE); }
static void d_byte(u64 i, char *b, size_t c) { snprintf(b, c, "collection %d with byte %d set to %02x", cur, (int)(i >> 8), (int)(i & 255)); }
static void run_cut(u64 i) { feed(&F[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static void d_cut(u64 i, char *b, size_t c) { snprintf(b, c, "collection %d cut after %d bytes, mode %d", cur, (int)(i / NMODE), (int)(i % NMODE)); }
/* fields of 2 and 4 bytes with values at the borders */
static const u32 BV[] = { 0, 1, 2, 7, 8, 127, 128, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu, 0x10000, 0x100000 };
static void run_field(u64 i) {
    bytes *f = &F[cur]; u32 v = BV[i % 16]; int p = (int)(i / 16) * 2; memcpy(W.b, f->b, (size_t)f->n);
    for (int k = 0; k < 4 && p + k < f->n; k++) W.b[p + k] = (u8)(v >> 8 * k);
    feed(&W, f->n, (int)((i / 16 + i) % NMODE));
}
static void d_field(u64 i, char *b, size_t c) { snprintf(b, c, "collection %d with the field at %d set to %u", cur, (int)(i / 16) * 2, BV[i % 16]); }
/* two fields of the size/count/index kind */
static int FP[96], NFP; static const u32 PV[] = { 0, 1, 3, 6, 20, 0x7fff, 0xffff, 0xfffffffeu };
static void find_fields(const bytes *f) {
    NFP = 0;
    for (int p = 0; p + 8 <= f->n && NFP < 90; p += 2) {
        const u8 *b = f->b + p;
        if (!memcmp(b, "LIST", 4) || !memcmp(b, "RIFF", 4) || !memcmp(b, "insh", 4) || !memcmp(b, "ptbl", 4) || !memcmp(b, "wsmp", 4) || !memcmp(b, "data", 4) || !memcmp(b, "wlnk", 4) || !memcmp(b, "art1", 4) || !memcmp(b, "art2", 4) || !memcmp(b, "rgnh", 4)) FP[NFP++] = p + 4;
        if (!memcmp(b, "insh", 4)) FP[NFP++] = p + 8;
        if (!memcmp(b, "ptbl", 4)) { FP[NFP++] = p + 8; FP[NFP++] = p + 12; FP[NFP++] = p + 16; FP[NFP++] = p + 20; }
        if (!memcmp(b, "wlnk", 4)) FP[NFP++] = p + 16;
        if (!memcmp(b, "wsmp", 4)) { FP[NFP++] = p + 8; FP[NFP++] = p + 24; FP[NFP++] = p + 36; FP[NFP++] = p + 40; }
        if (!memcmp(b, "fmt ", 4)) FP[NFP++] = p + 20;
        if (!memcmp(b, "art1", 4)) { FP[NFP++] = p + 8; FP[NFP++] = p + 12; }
    }
}
static void run_pair(u64 i) {
    bytes *f = &F[cur]; u32 v = PV[i % 8], w = PV[i / 8 % 8]; int a = (int)(i / 64) / NFP, b = (int)(i / 64) % NFP; if (a >= b) mc_skip();
    memcpy(W.b, f->b, (size_t)f->n); for (int k = 0; k < 4; k++) { if (FP[a] + k < f->n) W.b[FP[a] + k] = (u8)(v >> 8 * k); if (FP[b] + k < f->n) W.b[FP[b] + k] = (u8)(w >> 8 * k); }
    feed(&W, f->n, (a + b) % NMODE);
}
static void d_pair(u64 i, char *b, size_t c) { snprintf(b, c, "collection %d with the field at %d set to %u and the one at %d to %u", cur, FP[(int)(i / 64) / NFP], PV[i % 8], FP[(int)(i / 64) % NFP], PV[i / 8 % 8]); }
/* conditional chunks: all programs of up to n opcodes */
static const u16 OPC[] = { 0x10, 0x01, 0x02, 0x05, 0x06, 0x07, 0x08, 0x0f, 0x11, 0x12, 0x0e, 0x13 };
static int cl;
static void run_cdl(u64 i) {
    u64 j = i; W.n = 0; int riff = ls_(&W, "RIFF", "DLS "), m = ck_(&W, "cdl "); static const u8 guid[16] = { 0x24, 0x2a, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12 };
    for (int k = 0; k < cl; k++) { int o = OPC[j % 12]; j /= 12; by_le16(&W, o); if (o == 0x10) by_le32(&W, (u32)k); if (o == 0x11 || o == 0x12) by_put(&W, guid, 16); }
    ke_(&W, m); by_put(&W, F[0].b + 12, F[0].n - 12); ke_(&W, riff); feed(&W, W.n, (int)(i % NMODE));
}
static void d_cdl(u64 i, char *b, size_t c) { int o = snprintf(b, c, "a collection with the condition"); for (int k = 0; k < cl; k++) { o += snprintf(b + o, c - (size_t)o, " %02x", OPC[i % 12]); i /= 12; } }
/* structure: counts of everything that may be missing or superfluous */
static void run_struct(u64 i) {
    u64 j = i; int nrd = (int)(j % 5); j /= 5; int nr = (int)(j % 4); j /= 4; int nw = (int)(j % 3); j /= 3; int npt = (int)(j % 4); j /= 4; int link = (int)(j % 3); j /= 3; int ni = (int)(j % 3); j /= 3; int samples = (int)(j % 4); j /= 4; int loop = (int)(j % 5); j /= 5; int odd = (int)(j % 2);
    W.n = 0; int riff = ls_(&W, "RIFF", "DLS "), l, m; l = ls_(&W, "LIST", "lins");
    for (int k = 0; k < ni; k++) {
        int in = ls_(&W, "LIST", "ins "); m = ck_(&W, "insh"); by_le32(&W, nrd); by_le32(&W, k); by_le32(&W, k); ke_(&W, m); int lr = ls_(&W, "LIST", "lrgn");
        for (int r = 0; r < nr; r++) rgn(&W, 0, r * 40, r * 40 + (r == 2 ? 10 : 39), link, loop == 4, 0);
        ke_(&W, lr); ke_(&W, in);
    }
    ke_(&W, l); m = ck_(&W, "ptbl"); by_le32(&W, 8); by_le32(&W, npt); int pt = W.n; for (int k = 0; k < npt; k++) by_le32(&W, 0); ke_(&W, m);
    l = ls_(&W, "LIST", "wvpl"); int base = W.n; if (odd) { m = ck_(&W, "junk"); by_u8(&W, 1); ke_(&W, m); }
    for (int k = 0; k < nw; k++) { if (k < npt) { u32 off = (u32)(W.n - base); W.b[pt + 4 * k] = (u8)off; W.b[pt + 4 * k + 1] = (u8)(off >> 8); } int n[4] = { 0, 1, 4, 20 }; wave(&W, k & 1 ? 8 : 16, S16, n[samples], loop == 4 ? 0 : loop, 0, loop == 2 ? 2 : loop == 3 ? 9 : 1); }
    ke_(&W, l); ke_(&W, riff); feed(&W, W.n, (int)(i % NMODE));
}
static void d_struct(u64 j, char *b, size_t c) { int a[9], q[9] = { 5, 4, 3, 4, 3, 3, 4, 5, 2 }; for (int k = 0; k < 9; k++) { a[k] = (int)(j % (u64)q[k]); j /= (u64)q[k]; } snprintf(b, c, "%d instruments with %d regions (%d declared) linked to wave %d, %d waves, %d pool entries, wave size class %d, loop class %d, odd chunk %d", a[5], a[1], a[0], a[4], a[2], a[3], a[6], a[7], a[8]); }

void mc_body(void) {
    for (int k = 0; k < NF; k++) file(&F[k], k);
    good_record(); { static u8 z[8192]; by_put(&W, z, sizeof z); }
    for (int k = 0; k < NF; k++) { mc_snap *s = mc_save(NULL); sut_init(); EAS_RESULT r = EAS_LoadDLSCollection(E, NULL, sut_file(&ef, &em, F[k].b, F[k].n)); MC_CHECK(r == EAS_SUCCESS, "good-dls", "collection %d was refused: %ld", k, (long)r); mc_restore(s); mc_snap_free(s); }
    int cdmax = mc_thorough ? 5 : 4;
    mc_bound("3 collections (melodic/drum, two-level articulations, 8 and 16 bit waves, loops): every byte x 256 values, every truncation, every 4-byte field x 16 border values, every pair of size/count/index fields x 64 values; every condition of up to %d opcodes over 12; 43200 combinations of missing and superfluous regions, waves, pool entries and loops; each loaded globally, over another collection with notes sounding, and into a playing stream", cdmax);
    static char nm[8][5][24];
    for (cur = 0; cur < (mc_thorough ? NF : 2); cur++) {
        u64 n = (u64)F[cur].n;
        snprintf(nm[cur][1], 24, "cut %d", cur); mc_space b = { .name = nm[cur][1], .n = (n + 1) * NMODE, .run = run_cut, .describe = d_cut, .cpu_limit = 5 }; mc_enumerate(&b);
        snprintf(nm[cur][2], 24, "field %d", cur); mc_space e = { .name = nm[cur][2], .n = n / 2 * 16, .run = run_field, .describe = d_field, .cpu_limit = 5 }; mc_enumerate(&e);
        find_fields(&F[cur]);
        snprintf(nm[cur][3], 24, "pair %d", cur); mc_space p = { .name = nm[cur][3], .n = (u64)NFP * (u64)NFP * 64, .run = run_pair, .describe = d_pair, .cpu_limit = 5 }; if (mc_thorough || cur == 0) mc_enumerate(&p);
        snprintf(nm[cur][0], 24, "byte %d", cur); mc_space a = { .name = nm[cur][0], .n = n * 256, .run = run_byte, .describe = d_byte, .cpu_limit = 5 }; mc_enumerate(&a);
    }
    for (cl = 0; cl <= cdmax; cl++) { u64 n = 1; for (int k = 0; k < cl; k++) n *= 12; snprintf(nm[cl][4], 24, "condition %d", cl); mc_space a = { .name = nm[cl][4], .n = n, .run = run_cdl, .describe = d_cdl, .cpu_limit = 5 }; mc_enumerate(&a); }
    mc_space st = { .name = "structure", .n = 5 * 4 * 3 * 4 * 3 * 3 * 4 * 5 * 2, .run = run_struct, .describe = d_struct, .cpu_limit = 5 }; mc_enumerate(&st);
}
