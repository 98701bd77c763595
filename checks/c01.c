/* C01: a broken MIDI file never harms the process or the instance. */
#include "robust.h"
const char mc_property[] = "C01";
static bytes F[8]; static int NF; static bytes W;
static EAS_FILE ef; static mc_file em;
static void files(void) {
    bytes *o; int m;
    /* every kind of event */
    o = &F[0]; smf_head(o, 0, 1, 96); m = smf_trk(o);
    smf_meta(o, 0, 3, "nam", 3); smf_meta(o, 0, 1, "t", 1); smf_tempo(o, 0, 400000); smf_meta(o, 0, 0x58, "\4\2\x18\10", 4); smf_ev(o, 0, (u8*)"\xf0\5\x7e\x7f\x09\x01\xf7", 7); smf_ev2(o, 0, 0xc0, 81); smf_ev3(o, 0, 0xb0, 7, 100); smf_ev3(o, 2, 0x90, 60, 100);
    by_u8(o, 1); by_u8(o, 64); by_u8(o, 90); smf_ev3(o, 1, 0xe0, 3, 70); smf_ev2(o, 1, 0xd0, 50); smf_ev3(o, 1, 0xa0, 60, 5); smf_ev3(o, 2, 0x80, 60, 0); smf_ev(o, 1, (u8*)"\xf7\2\xf8\xfe", 4);
    smf_ev3(o, 0, 0xb0, 64, 127); smf_ev3(o, 0x81, 0xb0, 0x7b, 0); smf_eot(o, 1); smf_endtrk(o, m);
    /* three tracks, tempo in the first, an unknown chunk, setup bar, a controller for registered parameters */
    o = &F[1]; smf_head(o, 1, 3, 48); m = smf_trk(o); smf_tempo(o, 0, 250000); smf_meta(o, 0, 0x58, "\4\2\x18\10", 4); smf_ev(o, 0, (u8*)"\xf0\5\x7e\x7f\x09\x01\xf7", 7); smf_tempo(o, 9, 350000); smf_eot(o, 4); smf_endtrk(o, m);
    by_put(o, "ABCD", 4); by_be32(o, 3); by_put(o, "xyz", 3);
    m = smf_trk(o); smf_ev3(o, 2, 0xb1, 101, 0); smf_ev3(o, 0, 0xb1, 100, 0); smf_ev3(o, 0, 0xb1, 6, 4); smf_ev2(o, 0, 0xc1, 14); smf_ev3(o, 0, 0x91, 50, 127); smf_ev3(o, 6, 0x81, 50, 64); smf_eot(o, 1); smf_endtrk(o, m);
    m = smf_trk(o); smf_ev3(o, 1, 0x99, 36, 127); smf_ev3(o, 4, 0x99, 42, 127); smf_eot(o, 5); smf_endtrk(o, m);
    /* polyphony message, master volume, split system exclusive */
    o = &F[2]; smf_head(o, 0, 1, 24); m = smf_trk(o); smf_ev(o, 0, (u8*)"\xf0\x0b\x7f\x7f\x0b\x01\x00\x02\x01\x04\x09\x08\xf7", 13); smf_ev(o, 0, (u8*)"\xf0\7\x7f\x7f\x04\x01\x00\x60\xf7", 9); smf_ev(o, 1, (u8*)"\xf0\3\x7e\x7f\x09", 5); smf_ev(o, 1, (u8*)"\xf7\2\x01\xf7", 4);
    smf_ev3(o, 0, 0x90, 60, 100); smf_ev3(o, 1, 0x91, 60, 100); smf_ev3(o, 1, 0x92, 60, 100); smf_eot(o, 3); smf_endtrk(o, m);
    /* RMID wrapper */
    o = &F[3]; by_put(o, "RIFF", 4); by_le32(o, 12 + F[2].n); by_put(o, "RMIDdata", 8); by_le32(o, F[2].n); by_put(o, F[2].b, F[2].n);
    NF = 4;
}
enum { NMODE = 4 };
static void feed(const bytes *b, int n, int mode) {
    sut_init(); sut_dry();
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef, &em, b->b, n), &h);
    mc_count(r == EAS_SUCCESS ? "accepted" : "rejected", 1); mc_outcome((u64)r * 3);
    if (r == EAS_SUCCESS) {
        MC_CHECK(h != NULL, "open", "EAS_OpenFile succeeded without a handle");
        EAS_RESULT p = EAS_Prepare(E, h); mc_outcome((u64)p * 3 + 1);
        if (p == EAS_SUCCESS) {
            if (mode == 1) { EAS_I32 len; (void)EAS_ParseMetaData(E, h, &len); }
            if (mode == 2) { (void)soft_render(); (void)EAS_Locate(E, h, 40, EAS_FALSE); (void)soft_render(); (void)EAS_Locate(E, h, 15, EAS_FALSE); }
            if (mode == 3) { (void)EAS_SetRepeat(E, h, 1); }
            int k = mode == 3 ? 24 : 10;
            for (int i = 0; i < k; i++) { r = soft_render(); if (r != EAS_SUCCESS) { mc_outcome((u64)r * 3 + 2); mc_count("playback error", 1); (void)soft_render(); break; } }
            EAS_STATE st; (void)EAS_State(E, h, &st); EAS_I32 t; (void)EAS_GetLocation(E, h, &t);
        }
        r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "closing a broken file returned %ld", (long)r);
    }
    probe("broken file"); all_done();
}
/* --- single bytes --- */
static int cur;
static void run_byte(u64 i) { int p = (int)(i >> 8), v = (int)(i & 255); bytes *f = &F[cur]; memcpy(W.b, f->b, (size_t)f->n); W.b[p] = (u8)v; feed(&W, f->n, (p + v) % NMODE); }
static void d_byte(u64 i, char *b, size_t c) { snprintf(b, c, "file %d with byte %d set to %02x", cur, (int)(i >> 8), (int)(i & 255)); }
/* --- truncations, each in every mode --- */
static void run_cut(u64 i) { feed(&F[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static void d_cut(u64 i, char *b, size_t c) { snprintf(b, c, "file %d cut after %d bytes, mode %d", cur, (int)(i / NMODE), (int)(i % NMODE)); }
/* --- pairs of bytes --- */
static const u8 PV[] = { 0x00, 0x7f, 0x80, 0xff };
static void run_pair(u64 i) {
    bytes *f = &F[cur]; int b = (int)(i & 3), a = (int)(i >> 2 & 3); i >>= 4; int p = (int)(i / (u64)f->n), q = (int)(i % (u64)f->n); if (p >= q) mc_skip();
    memcpy(W.b, f->b, (size_t)f->n); W.b[p] = PV[a]; W.b[q] = PV[b]; feed(&W, f->n, (p + q) % NMODE);
}
static void d_pair(u64 i, char *b, size_t c) { bytes *f = &F[cur]; snprintf(b, c, "file %d with byte %d = %02x and byte %d = %02x", cur, (int)((i >> 4) / (u64)f->n), PV[i >> 2 & 3], (int)((i >> 4) % (u64)f->n), PV[i & 3]); }
/* --- all short tracks --- */
static const u8 AL[] = { 0x00, 0x01, 0x3c, 0x7f, 0x80, 0x90, 0xb0, 0xc5, 0xe0, 0xf0, 0xf7, 0xf8, 0xff, 0x51, 0x2f, 0x03 };
#define NAL 16
static int tl;
static void track_bytes(u64 i, u8 *o) { for (int k = 0; k < tl; k++) { o[k] = AL[i % NAL]; i /= NAL; } }
static void run_track(u64 i) { W.n = 0; smf_head(&W, 0, 1, 96); int m = smf_trk(&W); u8 t[16]; track_bytes(i, t); by_put(&W, t, tl); smf_endtrk(&W, m); feed(&W, W.n, (int)((i ^ i >> 7) % NMODE)); }
static void d_track(u64 i, char *b, size_t c) { u8 t[16]; track_bytes(i, t); snprintf(b, c, "a track of the bytes %s", hex(t, tl)); }
/* --- headers --- */
static const int HF[] = { 0, 1, 2, 3, 255, 0xffff }, HN[] = { 0, 1, 2, 3, 127, 128, 129, 255, 256, 0x7fff, 0x8000, 0xffff }, HD[] = { 0, 1, 2, 96, 0x7fff, 0x8000, 0x8001, 0xe728, 0xe700, 0xffff };
static const u32 HL[] = { 0, 1, 5, 6, 7, 8, 20, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff2u }; static const u32 TL[] = { 0, 1, 4, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xffffffe0u };
#define CNT(a) ((int)(sizeof a / sizeof *a))
static void run_head(u64 i) {
    u64 j = i; int f = HF[j % CNT(HF)]; j /= CNT(HF); int n = HN[j % CNT(HN)]; j /= CNT(HN); int d = HD[j % CNT(HD)]; j /= CNT(HD); u32 hl = HL[j % CNT(HL)]; j /= CNT(HL); int nt = (int)(j % 3); j /= 3; u32 tlen = TL[j % CNT(TL)];
    W.n = 0; by_put(&W, "MThd", 4); by_be32(&W, hl); by_be16(&W, f); by_be16(&W, n); by_be16(&W, d); if (hl == 7 || hl == 8) by_put(&W, "\0\0", (int)hl - 6);
    for (int t = 0; t < nt; t++) { int m = smf_trk(&W); smf_ev3(&W, 0, 0x90, 60, 100); smf_ev3(&W, 3, 0x80, 60, 0); smf_eot(&W, 1); if (t || tlen == 4) smf_endtrk(&W, m); else { W.b[m - 4] = (u8)(tlen >> 24); W.b[m - 3] = (u8)(tlen >> 16); W.b[m - 2] = (u8)(tlen >> 8); W.b[m - 1] = (u8)tlen; } }
    feed(&W, W.n, (int)(i % NMODE));
}
static void d_head(u64 j, char *b, size_t c) { int f = HF[j % CNT(HF)]; j /= CNT(HF); int n = HN[j % CNT(HN)]; j /= CNT(HN); int d = HD[j % CNT(HD)]; j /= CNT(HD); u32 hl = HL[j % CNT(HL)]; j /= CNT(HL); int nt = (int)(j % 3); j /= 3; snprintf(b, c, "header: length %u format %d tracks %d division %d, %d tracks follow, first track length %u", hl, f, n, d, nt, TL[j % CNT(TL)]); }
/* --- variable-length quantities wherever one is read --- */
static const u8 VQ[][8] = { { 5, 0x80, 0x80, 0x80, 0x80, 0 }, { 4, 0xff, 0xff, 0xff, 0x7f }, { 5, 0xff, 0xff, 0xff, 0xff, 0x7f }, { 6, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f }, { 7, 0x90, 0x80, 0x80, 0x80, 0x80, 0x80, 0 }, { 2, 0x81, 0x00 }, { 3, 0x81, 0x80, 0x05 }, { 1, 0x7f }, { 5, 0x8f, 0xff, 0xff, 0xff, 0x7f }, { 5, 0x87, 0xff, 0xff, 0xff, 0x7f }, { 5, 0x88, 0x80, 0x80, 0x80, 0 } };
static const u8 VE[][6] = { { 3, 0x90, 60, 100 }, { 2, 0xff, 0x01 }, { 2, 0xff, 0x51 }, { 2, 0xff, 0x2f }, { 2, 0xff, 0x03 }, { 1, 0xf0 }, { 1, 0xf7 }, { 2, 0xff, 0x7f }, { 2, 0xff, 0x58 } };
static void run_vlq(u64 i) {
    u64 j = i; const u8 *a = VQ[j % CNT(VQ)]; j /= CNT(VQ); const u8 *e = VE[j % CNT(VE)]; j /= CNT(VE); const u8 *l = VQ[j % CNT(VQ)]; j /= CNT(VQ); int mode = (int)(j % NMODE); j /= NMODE;
    W.n = 0; smf_head(&W, 1, 1 + (int)(j & 1), 96); int m = smf_trk(&W); by_put(&W, a + 1, a[0]); by_put(&W, e + 1, e[0]); if (e[1] != 0x90) by_put(&W, l + 1, l[0]); by_put(&W, "\1\2\3\4\5", 5); by_put(&W, l + 1, l[0]); by_put(&W, "\x90\x40\x40", 3); smf_eot(&W, 2); smf_endtrk(&W, m);
    if (j & 1) { m = smf_trk(&W); smf_ev3(&W, 1, 0x91, 60, 100); by_put(&W, a + 1, a[0]); smf_ev3(&W, 1, 0x91, 60, 0); smf_eot(&W, 1); smf_endtrk(&W, m); }
    feed(&W, W.n, mode);
}
static void d_vlq(u64 i, char *b, size_t c) { snprintf(b, c, "long quantities, case %llu", (unsigned long long)i); }

void mc_body(void) {
    files(); good_record(); W.n = 0; by_be32(&W, 0); { static u8 z[4096]; by_put(&W, z, sizeof z); }
    static char nm[8][5][24];
    mc_bound("4 well-formed files (all event kinds, 3 tracks, SP-MIDI/system exclusive, RMID): every single byte x 256 values, every truncation x 4 usages, every pair of bytes over 4 values%s; all tracks of up to %d bytes over an alphabet of 16; %d header combinations; long variable-length quantities in every position", "", mc_thorough ? 6 : 5, CNT(HF) * CNT(HN) * CNT(HD) * CNT(HL) * 3 * CNT(TL));
    for (cur = 0; cur < NF; cur++) {
        u64 n = (u64)F[cur].n;
        snprintf(nm[cur][0], 24, "byte %d", cur); mc_space a = { .name = nm[cur][0], .n = n * 256, .run = run_byte, .describe = d_byte, .cpu_limit = 5 }; mc_enumerate(&a);
        snprintf(nm[cur][1], 24, "cut %d", cur); mc_space b = { .name = nm[cur][1], .n = (n + 1) * NMODE, .run = run_cut, .describe = d_cut, .cpu_limit = 5 }; mc_enumerate(&b);
        { snprintf(nm[cur][2], 24, "pair %d", cur); mc_space e = { .name = nm[cur][2], .n = n * n * 16, .run = run_pair, .describe = d_pair, .cpu_limit = 5 }; mc_enumerate(&e); }
    }
    for (tl = 0; tl <= (mc_thorough ? 6 : 5); tl++) { u64 n = 1; for (int k = 0; k < tl; k++) n *= NAL; snprintf(nm[tl][3], 24, "track %d", tl); mc_space a = { .name = nm[tl][3], .n = n, .run = run_track, .describe = d_track, .cpu_limit = 5 }; mc_enumerate(&a); }
    mc_space h = { .name = "header", .n = (u64)CNT(HF) * CNT(HN) * CNT(HD) * CNT(HL) * 3 * CNT(TL), .run = run_head, .describe = d_head, .cpu_limit = 5 }; mc_enumerate(&h);
    mc_space v = { .name = "vlq", .n = (u64)CNT(VQ) * CNT(VE) * CNT(VQ) * NMODE * 2, .run = run_vlq, .describe = d_vlq, .cpu_limit = 5 }; mc_enumerate(&v);
}
