/* C35: a broken JET file, or JET calls at odd moments, never harm the process or the instance (built with JET_INTERFACE). */
#include "robust.h"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#include "jet.h"
const char mc_property[] = "C35";
static bytes F[2], W; static EAS_FILE ef, eg; static mc_file em, eh; static u64 *jeth;
static void chunk(bytes *o, const char *tag, const bytes *d) { by_put(o, tag, 4); by_le32(o, (u32)d->n); by_put(o, d->b, d->n); }
static void pair(bytes *o, const char *tag, u32 v) { by_put(o, tag, 4); by_le32(o, v); }
static void files(void) {
    static const dc_note t[] = { { .bank = 0, .prog = 0, .klo = 0, .khi = 127, .level = 5000 } }; bytes d = {0}, s[3] = {{0}}; dc_bank(&d, t, 1, dls_flat, dls_nflat);
    for (int k = 0; k < 3; k++) { bytes *o = &s[k]; smf_head(o, 1, 2, 96); int m = smf_trk(o); smf_tempo(o, 0, 557279); smf_ev3(o, 0, 0x90, 60 + k, 100); smf_ev3(o, 2, 0xb0, 80, k); smf_ev3(o, 2, 0xb0, 102, 0); smf_eot(o, 3); smf_endtrk(o, m);
        m = smf_trk(o); smf_ev3(o, 1, 0xb1, 103, 0x41); smf_ev3(o, 0, 0x91, 67, 90); smf_ev3(o, 2, 0xb1, 103, 1); smf_ev3(o, 1, 0x81, 67, 0); smf_eot(o, 2); smf_endtrk(o, m); }
    for (int f = 0; f < 2; f++) { bytes *o = &F[f], i = {0}; by_put(o, "JET ", 4); by_le32(o, 0); pair(&i, "JVER", 0x01000000); pair(&i, "SMF#", f ? 3 : 2); pair(&i, "DLS#", 1); chunk(o, "JINF", &i); if (f) chunk(o, "JAPP", &i); if (f) chunk(o, "JSMF", &s[2]); chunk(o, "JSMF", &s[0]); chunk(o, "JDLS", &d); chunk(o, "JSMF", &s[1]); u32 n = (u32)o->n; for (int k = 0; k < 4; k++) o->b[4 + k] = (u8)(n >> 8 * k); by_free(&i); }
}
enum { NMODE = 6 };
static int any_; static void jr(int n) { for (int k = 0; k < n; k++) { EAS_RESULT r = soft_render(); S_JET_STATUS st; EAS_U32 raw; S_JET_EVENT e; JET_Status(E, &st); while (JET_GetEvent(E, &raw, &e)) any_++; if (r != EAS_SUCCESS) { mc_count("playback error", 1); mc_outcome((u64)r * 5); } } }
/* what an application does with a JET file, whatever its calls return */
static void use(int mode) {
    EAS_I32 a, n; (void)JET_GetAppData(E, &a, &n); EAS_RESULT r[4];
    r[0] = JET_QueueSegment(E, 0, mode & 1 ? -1 : 0, mode == 2 ? 1 : 0, mode, mode == 4 ? 2 : 0, 1); r[1] = JET_QueueSegment(E, 1, 0, mode == 3 ? -1 : 0, 0, 0, 2); r[2] = mode == 1 ? JET_QueueSegment(E, 2, -1, 0, 0, 0, 3) : mode > 2 ? JET_QueueSegment(E, mode == 3 ? 150 : 31, mode == 4 ? 150 : 3, 0, 0, 0, 3) : 0; r[3] = JET_Play(E); mc_outcome(mc_hash(r, sizeof r, (u64)mode));
    jr(4); if (mode == 5) { (void)JET_Pause(E); jr(2); (void)JET_Play(E); } if (mode == 4) { (void)JET_TriggerClip(E, 1); (void)JET_SetMuteFlags(E, 1, EAS_TRUE); (void)JET_SetMuteFlag(E, 1, EAS_FALSE, EAS_FALSE); }
    jr(4); (void)JET_QueueSegment(E, 1, -1, 0, -3, 0, 4); jr(mode == 3 ? 16 : 10); if (mode == 2) { (void)JET_Clear_Queue(E); jr(1); (void)JET_QueueSegment(E, 0, 0, 0, 0, 0, 9); (void)JET_Play(E); jr(3); }
}
static u64 good_jet(void) {
    u64 h = 1; EAS_RESULT r = JET_OpenFile(E, sut_file(&eg, &eh, F[0].b, F[0].n)); MC_CHECK(r == EAS_SUCCESS, "probe-jet", "opening a good JET file returned %ld", (long)r);
    r = JET_QueueSegment(E, 0, 0, 0, 0, 0, 1); MC_CHECK(r == EAS_SUCCESS, "probe-jet", "queueing a segment of a good JET file returned %ld", (long)r); r = JET_Play(E); MC_CHECK(r == EAS_SUCCESS, "probe-jet", "playing a good JET file returned %ld", (long)r);
    for (int k = 0; k < 8; k++) h = sut_render_hash(h); S_JET_EVENT e; EAS_U32 raw; int n = 0; while (JET_GetEvent(E, &raw, &e)) { h = mc_hash(&e, sizeof e, h); n++; } MC_CHECK(n == 1, "probe-jet", "%d events of a good JET file instead of one", n);
    r = JET_CloseFile(E); MC_CHECK(r == EAS_SUCCESS, "probe-jet", "closing a good JET file returned %ld", (long)r); return h;
}
/* an allocation fails, or reading the file does */
static int faultkind, faultat; static mc_iofault nofault;
static void arm(void) { if (faultkind == 1) { mc_alloc_reset(); mc_fail_at(faultat); } else if (faultkind > 1) { mc_io = nofault; mc_io.fail_at = faultat; mc_io.mode = faultkind == 2 ? IO_FAIL_ZERO : faultkind == 3 ? IO_FAIL_NEG : IO_SHORT; mc_io.sticky = faultkind == 4; } }
static void disarm(void) { if (faultkind == 1) { if (mc_alloc_calls() >= faultat) mc_count("failed allocations", 1); mc_fail_at(0); } else if (faultkind > 1) { if (mc_io.hit) mc_count("failed reads", 1); mc_io = nofault; } }
static void quiet(void) { int k; for (k = 0; k < 60; k++) { sut_render(); if (pcm_silent()) break; } MC_CHECK(k < 60, "silence", "sound goes on after the JET file was closed"); for (k = 0; k < 4; k++) sut_render(); }
static void feed(const bytes *f, int n, int mode) {
    sut_init(); sut_dry(); EAS_RESULT r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r);
    arm(); r = JET_OpenFile(E, sut_file(&ef, &em, f->b, n)); mc_outcome((u64)r); if (r == EAS_SUCCESS) mc_count("opened", 1); else mc_count("refused", 1);
    use(mode); S_JET_EVENT e; EAS_U32 raw; disarm();
    r = JET_CloseFile(E); MC_CHECK(r == EAS_SUCCESS, "close", "closing a broken JET file returned %ld", (long)r); while (JET_GetEvent(E, &raw, &e)) any_++;
    if (mode == 0) { r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "jet-shutdown", "JET_Shutdown returned %ld", (long)r); r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r); }
    quiet(); probe("broken JET file"); { u64 h = good_jet(); MC_CHECK(h == *jeth, "not-unharmed", "a good JET file opened after a broken one does not play as on a fresh instance"); }
    if (mode == 1) { (void)JET_OpenFile(E, sut_file(&ef, &em, f->b, n)); use(3); }        /* everything still open */
    r = JET_Shutdown(E); MC_CHECK(r == EAS_SUCCESS, "jet-shutdown", "JET_Shutdown returned %ld", (long)r); all_done();
}
static int cur;
static void run_byte(u64 i) { int p = (int)(i >> 8), v = (int)(i & 255); memcpy(W.b, F[cur].b, (size_t)F[cur].n); W.b[p] = (u8)v; feed(&W, F[cur].n, (p + v) % NMODE); }
static void d_byte(u64 i, char *b, size_t c) { snprintf(b, c, "JET file %d with byte %d set to %02x", cur, (int)(i >> 8), (int)(i & 255)); }
static void run_cut(u64 i) { feed(&F[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static void d_cut(u64 i, char *b, size_t c) { snprintf(b, c, "JET file %d cut after %d bytes, mode %d", cur, (int)(i / NMODE), (int)(i % NMODE)); }
static const u8 PV[] = { 0x00, 0x01, 0x7f, 0xff };
static void run_pair(u64 i) { int pl = 96, b = (int)(i & 3), a = (int)(i >> 2 & 3); i >>= 4; int p = (int)(i / (u64)pl), q = (int)(i % (u64)pl); if (p >= q) mc_skip(); memcpy(W.b, F[cur].b, (size_t)F[cur].n); W.b[p] = PV[a]; W.b[q] = PV[b]; feed(&W, F[cur].n, (p + q) % NMODE); }
static void d_pair(u64 i, char *b, size_t c) { snprintf(b, c, "JET file %d with byte %d = %02x and byte %d = %02x", cur, (int)((i >> 4) / 96), PV[i >> 2 & 3], (int)((i >> 4) % 96), PV[i & 3]); }
/* chunks of every kind in every order, declared or not */
enum { NC = 9 };
static void run_order(u64 i) {
    int mode = (int)(i % NMODE); i /= NMODE; int ns = (int[]){ 0, 3, 31, 200 }[i % 4]; i /= 4; int nd = (int[]){ 0, 1, 3, 200 }[i % 4]; i /= 4; W.n = 0; by_put(&W, "JET ", 4); by_le32(&W, 4000);
    bytes in = {0}; pair(&in, "SMF#", (u32)ns); pair(&in, "DLS#", (u32)nd); const u8 *b = F[0].b; int o[3], k = 0, p = 8; while (p < F[0].n) { int n = b[p + 4] | b[p + 5] << 8; if (b[p + 1] == 'S' || b[p + 1] == 'D') o[k++] = p; p += 8 + n; }
    for (int c = 0; c < 4; c++) { int t = (int)(i % NC); i /= NC; if (t == 0) chunk(&W, "JINF", &in); else if (t < 4) { int q = o[t - 1]; by_put(&W, b + q, 8 + (b[q + 4] | b[q + 5] << 8)); } else if (t == 4) { by_put(&W, "JAPP", 4); by_le32(&W, 0xffffffffu); } else if (t == 5) { by_put(&W, "JDLS", 4); by_le32(&W, 6); by_put(&W, "RIFF\0\0", 6); } else if (t == 6) { by_put(&W, "JINF", 4); by_le32(&W, 4000); } else if (t == 7) for (int q = 0; q < 40; q++) { by_put(&W, q & 1 ? "JSMF" : "JDLS", 4); by_le32(&W, 0); } }
    by_free(&in); feed(&W, W.n, mode);
}
static void d_order(u64 i, char *b, size_t c) { int l = 0, mode = (int)(i % NMODE); i /= NMODE; l = snprintf(b, c, "%d segments and %d collections declared, mode %d:", (int[]){ 0, 3, 31, 200 }[i % 4], (int[]){ 0, 1, 3, 200 }[i / 4 % 4], mode); i /= 16; for (int k = 0; k < 4; k++) { l += snprintf(b + l, c - (size_t)l, " %s", (const char *[]){ "JINF", "JSMF", "JDLS", "JSMF", "endless JAPP", "short JDLS", "long JINF", "40 empty JDLS and JSMF", "-" }[i % NC]); i /= NC; } }
static void run_many(u64 i) { int mode = (int)(i % NMODE); i /= NMODE; int ns = (int)(i % 64), nd = (int)(i / 64); W.n = 0; by_put(&W, "JET ", 4); by_le32(&W, 8 + 24 + 80 * 16); bytes in = {0}; pair(&in, "SMF#", (u32)ns * 5); pair(&in, "DLS#", (u32)nd * 13); chunk(&W, "JINF", &in); by_free(&in); for (int q = 0; q < 160; q++) { by_put(&W, "JSMF", 4); by_le32(&W, 0); } feed(&W, W.n, mode); }
static void d_many(u64 i, char *b, size_t c) { snprintf(b, c, "%d segments and %d collections declared, 160 empty segments, mode %d", (int)(i / NMODE % 64) * 5, (int)(i / NMODE / 64) * 13, (int)(i % NMODE)); }
static void run_fault(u64 i) { int f = (int)(i % 2); i /= 2; int m = (int)(i % NMODE); i /= NMODE; faultkind = cur; faultat = (int)i + 1; feed(&F[f], F[f].n, m); faultkind = 0; }
static void d_fault(u64 i, char *b, size_t c) { snprintf(b, c, "JET file %d, mode %d, %s %d fails", (int)(i % 2), (int)(i / 2 % NMODE), cur == 1 ? "allocation" : "read", (int)(i / 2 / NMODE) + 1); }
void mc_body(void) {
    files(); good_record(); jeth = mc_big(sizeof *jeth); { mc_snap *s = mc_save(NULL); sut_init(); sut_dry(); EAS_RESULT r = JET_Init(E, NULL, 0); MC_CHECK(r == EAS_SUCCESS, "init", "JET_Init returned %ld", (long)r); u64 h = good_jet(), *k = jeth; mc_restore(s); jeth = k; *jeth = h; mc_snap_free(s); }
    { static u8 z[4096]; W.n = 0; by_put(&W, z, sizeof z); }
    mc_bound("2 well-formed JET files (%d and %d bytes): every single byte x 256 values, every truncation x %d usages, every pair among the first 96 bytes over 4 values; every sequence of 4 of %d kinds of chunks x 16 declarations x %d usages; any one allocation (of 40) failing, any one read (of 1200) failing or all from it on being short", F[0].n, F[1].n, NMODE, NC, NMODE);
    static char nm[2][3][24];
    for (cur = 0; cur < (mc_thorough ? 2 : 1); cur++) {
        u64 n = (u64)F[cur].n; snprintf(nm[cur][0], 24, "byte %d", cur); mc_space a = { .name = nm[cur][0], .n = n * 256, .run = run_byte, .describe = d_byte, .cpu_limit = 5 }; mc_enumerate(&a);
        snprintf(nm[cur][2], 24, "pair %d", cur); mc_space e = { .name = nm[cur][2], .n = 96 * 96 * 16, .run = run_pair, .describe = d_pair, .cpu_limit = 5 }; mc_enumerate(&e);
    }
    for (cur = 0; cur < 2; cur++) { snprintf(nm[cur][1], 24, "cut %d", cur); mc_space b = { .name = nm[cur][1], .n = ((u64)F[cur].n + 1) * NMODE, .run = run_cut, .describe = d_cut, .cpu_limit = 5 }; mc_enumerate(&b); }
    mc_space v = { .name = "chunks", .n = (u64)16 * NMODE * NC * NC * NC * NC, .run = run_order, .describe = d_order, .cpu_limit = 5 }; mc_enumerate(&v);
    mc_space y = { .name = "many", .n = (u64)NMODE * 64 * 24, .run = run_many, .describe = d_many, .cpu_limit = 5 }; mc_enumerate(&y);
    static const int lim[] = { 0, 40, 1200, 1200, 1200 }; static char fm[5][24];
    for (cur = 1; cur < 5; cur++) { snprintf(fm[cur], 24, "fault %d", cur); mc_space w = { .name = fm[cur], .n = (u64)2 * NMODE * (u64)lim[cur], .run = run_fault, .describe = d_fault, .cpu_limit = 5 }; mc_enumerate(&w); }
}
