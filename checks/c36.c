/* C36: a broken WAVE file never harms the process or the instance (built with _WAVE_PARSER and _IMA_DECODER). */
#include "robust.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "wave.h"
const char mc_property[] = "C36";
enum { NF = 5, NMODE = 8, HDR = 96 };
static bytes F[NF], W; static EAS_FILE ef; static mc_file em;
static const char *const FN[NF] = { "8 bit mono", "16 bit stereo", "ADPCM", "streamed", "without blocks" };
static void files(void) {
    u8 d[2200]; for (int i = 0; i < 2200; i++) d[i] = (u8)(i * 37 + i / 7);
    for (int f = 0; f < NF; f++) {
        bytes *o = &F[f]; wbegin(o); if (f == 0) winfo(o, 0);
        if (f == 2 || f == 4) { u8 a[180]; for (int i = 0; i < 180; i++) a[i] = i % 36 == 2 ? (u8)(i / 36 * 20) : i % 36 == 3 ? 0 : d[i]; wfmt(o, 1, 1, 4000, 4, f == 2 ? 36 : 0); if (f == 2) wchunk(o, "fact", "\1\0\0\0", 4); wchunk(o, "data", a, sizeof a); }
        else { wfmt(o, 0, f == 1 ? 2 : 1, f == 1 ? 44100 : 8000, f == 0 ? 8 : 16, 0); wchunk(o, "data", d, f == 0 ? 201 : f == 1 ? 2000 : 500); }
        if (f == 2) winfo(o, 1); if (f == 1) wchunk(o, "junk", d, 7); wend(o); if (f == 3) { o->b[4] = o->b[5] = o->b[6] = 0; o->b[7] = 0x80; }
    }
}
static char mb[3][32]; static int mbs;
static void meta(E_EAS_METADATA_TYPE t, char *m, EAS_VOID_PTR p) { MC_CHECK(m == mb[1] && memchr(m, 0, (size_t)mbs), "metadata", "a metadata text is not terminated inside the buffer of %d bytes", mbs); mc_outcome(mc_hash(m, strlen(m), 3)); }
static int faultkind, faultat; static mc_iofault nofault;
static void arm(void) { if (faultkind == 1) { mc_alloc_reset(); mc_fail_at(faultat); } else if (faultkind > 1) { mc_io = nofault; mc_io.fail_at = faultat; mc_io.mode = faultkind == 2 ? IO_FAIL_ZERO : faultkind == 3 ? IO_FAIL_NEG : IO_SHORT; mc_io.sticky = faultkind == 4; } }
static void disarm(void) { if (faultkind == 1) { if (mc_alloc_calls() >= faultat) mc_count("failed allocations", 1); mc_fail_at(0); } else if (faultkind > 1) { if (mc_io.hit) mc_count("failed reads", 1); mc_io = nofault; } }
static void rend(int n) { for (int k = 0; k < n; k++) { EAS_RESULT r = soft_render(); if (r != EAS_SUCCESS) { mc_outcome((u64)r * 3 + 2); mc_count("playback error", 1); (void)soft_render(); break; } } }
static void feed(const bytes *b, int n, int mode) {
    sut_init(); sut_dry(); memset(mb, 0x77, sizeof mb); mbs = mode == 7 ? 1 : 6; arm();
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef, &em, b->b, n), &h); mc_count(r == EAS_SUCCESS ? "accepted" : "rejected", 1); mc_outcome((u64)r * 3);
    if (r == EAS_SUCCESS) {
        EAS_STATE st; EAS_I32 t; EAS_RESULT p;
        if (mode == 6) { (void)EAS_SetVolume(E, h, 50); (void)EAS_SetPlaybackRate(E, h, 1 << 27); (void)EAS_Pause(E, h); (void)EAS_Resume(E, h); (void)EAS_State(E, h, &st); (void)EAS_ParseMetaData(E, h, &t); (void)EAS_Locate(E, h, 10, EAS_FALSE); (void)EAS_SetTransposition(E, h, 3); (void)EAS_SetRepeat(E, h, 1); rend(2); }
        p = EAS_Prepare(E, h); mc_outcome((u64)p * 3 + 1);
        if (p == EAS_SUCCESS || mode == 6) {
            if (p == EAS_SUCCESS) { EAS_I32 ft; r = EAS_GetFileType(E, h, &ft); MC_CHECK(r == EAS_SUCCESS || faultkind, "type", "the type of a prepared file is not known"); mc_count(ft == EAS_FILE_WAVE_PCM ? "PCM" : ft == EAS_FILE_WAVE_IMA_ADPCM ? "ADPCM" : "other type", 1); }
            if (mode & 1 && p == EAS_SUCCESS) { r = EAS_RegisterMetaDataCallback(E, h, meta, mb[1], mbs, NULL); MC_CHECK(r == EAS_SUCCESS, "register", "%ld", (long)r); }
            if (mode & 1 || mode == 2) { EAS_I32 len; (void)EAS_ParseMetaData(E, h, &len); }
            if (mode == 2) { rend(1); (void)EAS_Locate(E, h, 40, EAS_FALSE); rend(1); (void)EAS_Locate(E, h, 15, EAS_FALSE); rend(1); (void)EAS_Locate(E, h, 3000, EAS_FALSE); rend(1); (void)EAS_Locate(E, h, 0, EAS_FALSE); }
            if (mode == 3) { (void)EAS_SetRepeat(E, h, 2); }
            if (mode == 4) { rend(2); (void)EAS_Pause(E, h); rend(2); (void)EAS_Locate(E, h, 25, EAS_FALSE); (void)EAS_Resume(E, h); rend(1); (void)EAS_Pause(E, h); (void)EAS_Resume(E, h); }
            if (mode == 5) { (void)EAS_SetRepeat(E, h, -1); (void)EAS_SetPlaybackRate(E, h, 1 << 29); (void)EAS_SetVolume(E, h, 30); }
            if (mode == 7) { (void)EAS_SetPlaybackRate(E, h, 1 << 27); (void)EAS_SetTransposition(E, h, -5); }
            rend(12); (void)EAS_State(E, h, &st); (void)EAS_GetLocation(E, h, &t);
        }
        disarm(); r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "closing a broken file returned %ld", (long)r);
    }
    disarm();
    for (int i = 0; i < 32; i++) MC_CHECK(mb[0][i] == 0x77 && mb[2][i] == 0x77 && (i < mbs || mb[1][i] == 0x77), "metadata-overrun", "the metadata buffer of %d bytes was overrun", mbs);
    probe("broken WAVE file"); all_done();
}
static int cur;
static int lim(int f) { return F[f].n; }
static void run_byte(u64 i) { int p = (int)(i >> 8), v = (int)(i & 255); memcpy(W.b, F[cur].b, (size_t)F[cur].n); W.b[p] = (u8)v; feed(&W, F[cur].n, (p + v) % NMODE); }
static void d_byte(u64 i, char *b, size_t c) { snprintf(b, c, "%s with byte %d set to %02x", FN[cur], (int)(i >> 8), (int)(i & 255)); }
static void run_cut(u64 i) { feed(&F[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static void d_cut(u64 i, char *b, size_t c) { snprintf(b, c, "%s cut after %d bytes, mode %d", FN[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static const u8 PV[] = { 0x00, 0x01, 0x7f, 0xff };
static void run_pair(u64 i) { int b = (int)(i & 3), a = (int)(i >> 2 & 3); i >>= 4; int p = (int)(i / HDR), q = (int)(i % HDR); if (p >= q || q >= F[cur].n) mc_skip(); memcpy(W.b, F[cur].b, (size_t)F[cur].n); W.b[p] = PV[a]; W.b[q] = PV[b]; feed(&W, F[cur].n, (p + q) % NMODE); }
static void d_pair(u64 i, char *b, size_t c) { snprintf(b, c, "%s with byte %d = %02x and byte %d = %02x", FN[cur], (int)((i >> 4) / HDR), PV[i >> 2 & 3], (int)((i >> 4) % HDR), PV[i & 3]); }
/* every combination of odd values in the format and data chunks */
static const u32 RATE[] = { 0, 1, 8000, 44100, 65536, 96000, 0x7fffffff, 0xffffffff }, AVG[] = { 0, 1, 999, 8000, 0xffffffff }, BLK[] = { 0, 1, 3, 4, 5, 36, 0xffff }, SIZ[] = { 0, 1, 2, 3, 5, 37, 300, 100000, 0x7fffffff, 0x80000000u, 0xfffffff9u, 0xffffffff }, STEP[] = { 0, 88, 89, 255 }, RIFF_[] = { 0, 20, 0x7fffffff, 0x80000000u, 0xffffffff };
#define CNT(a) (sizeof a / sizeof *a)
static u64 NCOMBO;
static void combo(u64 i, int *mode) {
    *mode = (int)(i % NMODE); i /= NMODE; u32 rate = RATE[i % CNT(RATE)]; i /= CNT(RATE); u32 avg = AVG[i % CNT(AVG)]; i /= CNT(AVG); u32 blk = BLK[i % CNT(BLK)]; i /= CNT(BLK); u32 siz = SIZ[i % CNT(SIZ)]; i /= CNT(SIZ); u32 st = STEP[i % CNT(STEP)]; i /= CNT(STEP); u32 rf = RIFF_[i % CNT(RIFF_)]; i /= CNT(RIFF_); int kind = (int)(i % 5);
    W.n = 0; by_put(&W, "RIFF", 4); by_le32(&W, rf); by_put(&W, "WAVEfmt ", 8); by_le32(&W, 16); by_le16(&W, kind == 4 ? 0x11 : 1); by_le16(&W, kind == 1 || kind == 3 ? 2 : 1); by_le32(&W, rate); by_le32(&W, avg); by_le16(&W, (int)blk); by_le16(&W, kind == 4 ? 4 : kind < 2 ? 8 : 16);
    by_put(&W, "data", 4); by_le32(&W, siz); for (int k = 0; k < 300; k++) by_u8(&W, k % (blk > 3 && blk < 100 ? (int)blk : 36) == 2 ? (int)st : k * 29);
}
static void run_combo(u64 i) { int m; combo(i, &m); feed(&W, W.n, m); }
static void d_combo(u64 i, char *o, size_t c) { int m; combo(i, &m); snprintf(o, c, "mode %d, header %s, then 300 bytes", m, hex(W.b, 44)); }
/* every order of chunks */
enum { NC = 11 };
static const char *const CNM[NC] = { "fmt", "data", "INFO", "fmt ADPCM", "second data", "odd chunk", "empty INFO", "INFO too long", "INFO of unknown", "short fmt", "nothing" };
static void run_order(u64 i) {
    int mode = (int)(i % NMODE); i /= NMODE; wbegin(&W); u8 d[64]; for (int k = 0; k < 64; k++) d[k] = (u8)(k * 11);
    for (int c = 0; c < 4; c++) { int t = (int)(i % NC); i /= NC;
        if (t == 0) wfmt(&W, 0, 1, 8000, 8, 0); else if (t == 1) wchunk(&W, "data", d, 41); else if (t == 2) winfo(&W, 1); else if (t == 3) wfmt(&W, 1, 1, 8000, 4, 16); else if (t == 4) wchunk(&W, "data", d, 64); else if (t == 5) wchunk(&W, "xyzw", d, 3); else if (t == 6) wchunk(&W, "LIST", "INFO", 4);
        else if (t == 7) { by_put(&W, "LIST", 4); by_le32(&W, 30); by_put(&W, "INFOINAM\377\377\377\377abcdef", 18); } else if (t == 8) wchunk(&W, "LIST", "INFOQQQQ\1\0\0\0z", 13); else if (t == 9) wchunk(&W, "fmt ", "\1\0\1\0", 4); }
    wend(&W); feed(&W, W.n, mode);
}
static void d_order(u64 i, char *b, size_t c) { int l = snprintf(b, c, "mode %d:", (int)(i % NMODE)); i /= NMODE; for (int k = 0; k < 4; k++) { l += snprintf(b + l, c - (size_t)l, " %s,", CNM[i % NC]); i /= NC; } }
static void run_fault(u64 i) { int f = (int)(i % NF); i /= NF; int m = (int)(i % NMODE); i /= NMODE; faultkind = cur; faultat = (int)i + 1; feed(&F[f], F[f].n, m); faultkind = 0; }
static void d_fault(u64 i, char *b, size_t c) { snprintf(b, c, "%s, mode %d, %s %d fails", FN[i % NF], (int)(i / NF % NMODE), cur == 1 ? "allocation" : "read", (int)(i / NF / NMODE) + 1); }
/* the same file opened and closed over and over: nothing is used up */
static void run_again(u64 i) {
    int f = (int)(i % NF), prep = (int)(i / NF % 3), cut = (int)(i / NF / 3); EAS_HANDLE h; EAS_RESULT r; sut_init(); sut_dry();
    for (int k = 0; k < 150; k++) { h = NULL; r = EAS_OpenFile(E, sut_file(&ef, &em, F[f].b, cut ? 30 : F[f].n), &h); if (r != EAS_SUCCESS) mc_fail("used-up", "opening the file for the %d. time returned %ld", k + 1, (long)r); if (prep) (void)EAS_Prepare(E, h); if (prep > 1) rend(1); r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); }
    probe("WAVE files opened again and again"); all_done();
}
static void d_again(u64 i, char *b, size_t c) { snprintf(b, c, "%s%s%s, 150 times", FN[i % NF], (const char *[]){ " opened", " prepared", " played" }[i / NF % 3], i / NF / 3 ? " and cut" : ""); }
/* many files open at once: streams run out and are stolen */
static EAS_FILE mf[24]; static mc_file mm[24];
static void run_many(u64 i) {
    int n = 1 + (int)(i % 20); i /= 20; int f = (int)(i % NF); i /= NF; int how = (int)i; EAS_HANDLE h[24]; int k, open = 0; EAS_RESULT r; sut_init(); sut_dry();
    for (k = 0; k < n; k++) { h[k] = NULL; r = EAS_OpenFile(E, sut_file(&mf[k], &mm[k], F[f].b, F[f].n), &h[k]); if (r != EAS_SUCCESS) break; (void)EAS_Prepare(E, h[k]); open++; if (how & 1) rend(1); if (how & 2 && k % 3 == 1) { r = EAS_CloseFile(E, h[k]); MC_CHECK(r == EAS_SUCCESS, "close", "%ld", (long)r); h[k] = NULL; } }
    rend(4); for (int j = 0; j < open; j++) if (h[j]) { EAS_STATE st; (void)EAS_State(E, h[j], &st); r = EAS_CloseFile(E, h[j]); MC_CHECK(r == EAS_SUCCESS, "close", "closing one of %d files returned %ld", n, (long)r); }
    probe("many WAVE files"); all_done();
}
static void d_many(u64 i, char *b, size_t c) { snprintf(b, c, "%d files %s, way %d", 1 + (int)(i % 20), FN[i / 20 % NF], (int)(i / 20 / NF)); }
void mc_body(void) {
    files(); good_record(); { static u8 z[4096]; W.n = 0; by_put(&W, z, sizeof z); }
    NCOMBO = (u64)NMODE * CNT(RATE) * CNT(AVG) * CNT(BLK) * CNT(SIZ) * CNT(STEP) * CNT(RIFF_) * 5;
    mc_bound("%d well-formed WAVE files: every single byte x 256 values, every truncation x %d usages, every pair among the first %d bytes over 4 values; %d odd values of rate, byte rate, block size, data size, ADPCM step and length; every sequence of 4 of %d kinds of chunks; any one allocation (of 12) failing, any one read (of 500) failing or all from it on being short", NF, NMODE, HDR, (int)NCOMBO, NC);
    static char nm[NF][3][40];
    for (cur = 0; cur < NF; cur++) {
        u64 n = (u64)F[cur].n, hn = !mc_thorough && n > 250 ? 120 : n; snprintf(nm[cur][0], 40, "byte, %s", FN[cur]); mc_space a = { .name = nm[cur][0], .n = hn * 256, .run = run_byte, .describe = d_byte, .cpu_limit = 5 }; mc_enumerate(&a);
        snprintf(nm[cur][1], 40, "cut, %s", FN[cur]); mc_space b = { .name = nm[cur][1], .n = (n + 1) * NMODE, .run = run_cut, .describe = d_cut, .cpu_limit = 5 }; mc_enumerate(&b);
        snprintf(nm[cur][2], 40, "pair, %s", FN[cur]); mc_space e = { .name = nm[cur][2], .n = HDR * HDR * 16, .run = run_pair, .describe = d_pair, .cpu_limit = 5 }; if (mc_thorough || cur == 0 || cur == 2) mc_enumerate(&e);
    }
    mc_space g = { .name = "header", .n = NCOMBO, .run = run_combo, .describe = d_combo, .cpu_limit = 5 }; mc_enumerate(&g);
    mc_space v = { .name = "chunks", .n = (u64)NMODE * NC * NC * NC * NC, .run = run_order, .describe = d_order, .cpu_limit = 5 }; mc_enumerate(&v);
    mc_space y = { .name = "many", .n = 20 * NF * 4, .run = run_many, .describe = d_many, .cpu_limit = 5 }; mc_enumerate(&y);
    mc_space ag = { .name = "again", .n = NF * 3 * 2, .run = run_again, .describe = d_again, .cpu_limit = 5 }; mc_enumerate(&ag);
    static const int lm[] = { 0, 12, 500, 500, 500 }; static char fm[5][24];
    for (cur = 1; cur < 5; cur++) { snprintf(fm[cur], 24, "fault %d", cur); mc_space w = { .name = fm[cur], .n = (u64)NF * NMODE * (u64)lm[cur], .run = run_fault, .describe = d_fault, .cpu_limit = 5 }; mc_enumerate(&w); }
}
