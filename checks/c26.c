/* C26: which collection a stream plays, and how long collections live. */
#include "sut.h"
const char mc_property[] = "C26";
enum { NOCOLL, CA, CB, CC_, NCOLL };
/* synths: 0, 1 live streams; 2 a file with a live stream on it; 3 another file with a live stream on it */
#define NY 4
static bytes bank[NCOLL], junk, cut, empty, quiet; static int lev[NCOLL][NY];
static EAS_FILE ff[16]; static mc_file fm[16];
static struct { EAS_HANDLE F[NY], L[NY]; u8 fopen, lopen, coll[NY], note[NY], glob; long base; } M;
static long own[NCOLL];
enum { GA, GB, GC, GJUNK, GCUT, GEMPTY, SA2, SB2, SB3, SC3, SJUNK2, SCUT3, SLIVE0, OPN0, CLF0 = OPN0 + NY, CLL0 = CLF0 + 2, NOTE0 = CLL0 + NY, REND = NOTE0 + NY, RENEW, NOPS };
static const char *opname(int o) {
    static char b[80];
    if (o < OPN0) return (const char *[]){ "load A", "load B", "load C", "load something else", "load a truncated collection", "load an empty file", "load A for file 2", "load B for file 2", "load B for file 3", "load C for file 3", "load something else for file 2", "load a truncated collection for file 3", "load A for live stream 0" }[o];
    if (o < CLF0) snprintf(b, sizeof b, "open %s %d", o - OPN0 < 2 ? "live stream" : "file and its live stream", o - OPN0); else if (o < CLL0) snprintf(b, sizeof b, "close file %d", o - CLF0 + 2);
    else if (o < NOTE0) snprintf(b, sizeof b, "close live stream %d", o - CLL0); else if (o < REND) snprintf(b, sizeof b, "note on/off stream %d", o - NOTE0); else return o == REND ? "render" : "open live stream of a file again";
    return b;
}
static int lo(int k) { return M.lopen >> k & 1; }
static int fo(int k) { return M.fopen >> k & 1; }
static int open_streams(void) { int n = 0; for (int k = 0; k < NY; k++) n += lo(k) + fo(k); return n; }
static int enabled(int o, int at) {
    (void)at;
    if (o < SA2) return 1;
    if (o < SLIVE0) return fo(o == SB3 || o == SC3 || o == SCUT3 ? 3 : 2);
    if (o == SLIVE0) return lo(0);
    if (o < CLF0) return !lo(o - OPN0) && !fo(o - OPN0) && open_streams() + (o - OPN0 < 2 ? 1 : 2) <= 4;
    if (o < CLL0) return fo(o - CLF0 + 2);
    if (o < NOTE0) return lo(o - CLL0);
    if (o < REND) return lo(o - NOTE0) && (M.coll[o - NOTE0] || M.note[o - NOTE0]);
    if (o == RENEW) return fo(2) && !lo(2) && open_streams() < 4;
    return 1;
}
/* the file is only there while it is being loaded */
static EAS_RESULT load(EAS_HANDLE h, const bytes *b) {
    EAS_FILE f; mc_file m; u8 *d = malloc((size_t)b->n + 1); memcpy(d, b->b, (size_t)b->n); m.data = d; m.len = b->n; memset(&f, 0, sizeof f); f.handle = &m; f.readAt = mc_readAt; f.size = mc_sizeOf;
    EAS_RESULT r = EAS_LoadDLSCollection(E, h, &f); memset(d, 0xee, (size_t)b->n); free(d); memset(&m, 0xee, sizeof m); memset(&f, 0xee, sizeof f); return r;
}
static void check(void) {
    for (int i = 0; i < 3; i++) sut_render();
    int want = 0; for (int k = 0; k < NY; k++) if (M.note[k]) want += lev[M.note[k]][k];
    int d = sut_last(0) - want; MC_CHECK(d > -15 && d < 15, "sound", "output %d, the notes that should sound add up to %d: collections %d %d %d %d, notes %d %d %d %d", sut_last(0), want, M.coll[0], M.coll[1], M.coll[2], M.coll[3], M.note[0], M.note[1], M.note[2], M.note[3]);
}
static void gone(int k) { if (!fo(k) && !lo(k)) M.note[k] = 0, M.coll[k] = 0; }
static void apply(int o) {
    EAS_RESULT r; static const u8 COLL[] = { CA, CB, CC_, 0, 0, 0, CA, CB, CB, CC_ };
    if (o <= GC) { r = load(NULL, &bank[COLL[o]]); MC_CHECK(r == EAS_SUCCESS, "load", "%s returned %ld", opname(o), (long)r); M.glob = COLL[o]; }
    else if (o <= GEMPTY) { long h = mc_live(); r = load(NULL, o == GJUNK ? &junk : o == GCUT ? &cut : &empty); MC_CHECK(r != EAS_SUCCESS, "accepted", "%s succeeded", opname(o)); MC_CHECK(h == mc_live(), "refused", "%s was refused and has left memory allocated", opname(o)); }
    else if (o < SJUNK2) { int k = o < SB3 ? 2 : 3; r = load(M.F[k], &bank[COLL[o]]); MC_CHECK(r == EAS_SUCCESS, "load", "%s returned %ld", opname(o), (long)r); M.coll[k] = COLL[o]; M.note[k] = 0; }
    else if (o < SLIVE0) { long h = mc_live(); r = load(M.F[o == SJUNK2 ? 2 : 3], o == SJUNK2 ? &junk : &cut); MC_CHECK(r != EAS_SUCCESS, "accepted", "%s succeeded", opname(o)); MC_CHECK(h == mc_live(), "refused", "%s was refused and has left memory allocated", opname(o)); }
    else if (o == SLIVE0) { long h = mc_live(); r = load(M.L[0], &bank[CA]); MC_CHECK(r != EAS_SUCCESS, "accepted", "%s succeeded", opname(o)); MC_CHECK(h == mc_live(), "refused", "%s was refused and has left memory allocated", opname(o)); }
    else if (o < CLF0) {
        int k = o - OPN0; if (k < 2) M.L[k] = sut_midi();
        else { M.F[k] = sut_open(sut_file(&ff[k], &fm[k], quiet.b, quiet.n)); r = EAS_OpenMIDIStream(E, &M.L[k], M.F[k]); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenMIDIStream on a file returned %ld", (long)r); M.fopen |= 1 << k; }
        M.lopen |= 1 << k; M.coll[k] = M.glob;
    }
    else if (o < CLL0) { int k = o - CLF0 + 2; r = EAS_CloseFile(E, M.F[k]); MC_CHECK(r == EAS_SUCCESS, "close", "%s returned %ld", opname(o), (long)r); M.fopen &= ~(1 << k); gone(k); }
    else if (o < NOTE0) { int k = o - CLL0; r = EAS_CloseMIDIStream(E, M.L[k]); MC_CHECK(r == EAS_SUCCESS, "close", "%s returned %ld", opname(o), (long)r); M.lopen &= ~(1 << k); gone(k); }
    else if (o < REND) { int k = o - NOTE0; u8 m[5] = { 0xc0, (u8)(M.coll[k] - 1), 0x90, 60, (u8)(M.note[k] ? 0 : 127) }; sut_write(M.L[k], m + (M.note[k] ? 2 : 0), M.note[k] ? 3 : 5); M.note[k] = M.note[k] ? 0 : M.coll[k]; }
    else if (o == RENEW) { r = EAS_OpenMIDIStream(E, &M.L[2], M.F[2]); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenMIDIStream on a file returned %ld", (long)r); M.lopen |= 4; }
    else check();
}
static void leaf(void) {
    EAS_RESULT r; check();
    /* every stream plays its collection, those without one the built-in sounds */
    for (int k = 0; k < NY; k++) if (lo(k) && !M.note[k]) {
        if (M.coll[k]) { apply(NOTE0 + k); check(); apply(NOTE0 + k); check(); }
        else { u8 m[5] = { 0xc0, 80, 0x90, 60, 127 }; sut_write(M.L[k], m, 5); int mn = 99999, mx = -99999; for (int i = 0; i < 4; i++) { sut_render(); for (int j = 0; j < FRAME; j++) { if (PCM[2 * j] < mn) mn = PCM[2 * j]; if (PCM[2 * j] > mx) mx = PCM[2 * j]; } } MC_CHECK(mx - mn > 300, "built-in", "stream %d without a collection of its own does not play built-in sounds", k); sut_w3(M.L[k], 0xb0, 120, 0); for (int i = 0; i < 3; i++) sut_render(); check(); }
    }
    for (int k = 0; k < NY; k++) { if (lo(k)) { r = EAS_CloseMIDIStream(E, M.L[k]); MC_CHECK(r == EAS_SUCCESS, "close", "closing live stream %d returned %ld", k, (long)r); } if (fo(k)) { r = EAS_CloseFile(E, M.F[k]); MC_CHECK(r == EAS_SUCCESS, "close", "closing file %d returned %ld", k, (long)r); } }
    long n = mc_live() - M.base - own[M.glob]; MC_CHECK(n == 0, "leak", "with all streams closed %ld blocks are left that do not belong to the collection in force", n);
    r = EAS_Shutdown(E); MC_CHECK(r == EAS_SUCCESS && mc_live() == 0, "leak", "after EAS_Shutdown (%ld) %ld blocks are left", (long)r, mc_live());
}
static void setup(void) { memset(&M, 0, sizeof M); sut_init(); sut_dry(); M.base = mc_live(); }
static void calibrate(void) {
    mc_snap *s = mc_save(NULL); int *k = mc_big(sizeof lev); long *w = mc_big(sizeof own);
    for (int c = 1; c < NCOLL; c++) {
        setup(); apply(c - 1); w[c] = mc_live() - M.base;
        for (int y = 0; y < NY; y++) { apply(OPN0 + y); u8 m[5] = { 0xc0, (u8)(c - 1), 0x90, 60, 127 }; sut_write(M.L[y], m, 5); for (int i = 0; i < 3; i++) sut_render(); k[c * NY + y] = sut_last(0); sut_w3(M.L[y], 0x80, 60, 0); for (int i = 0; i < 3; i++) sut_render();
            if (y < 2) apply(CLL0 + y); else apply(CLF0 + y - 2), apply(CLL0 + y); }
        mc_restore(s);
    }
    memcpy(lev, k, sizeof lev); memcpy(own, w, sizeof own); mc_snap_free(s);
}
void mc_body(void) {
    smf_head(&quiet, 0, 1, 96); int m = smf_trk(&quiet); smf_eot(&quiet, 1000000); smf_endtrk(&quiet, m);
    /* collections with different numbers of programs, regions and waves */
    static const dc_note a[] = { { 0, 0, 0, 127, 1000 } }, b[] = { { 0, 0, 0, 59, 50 }, { 0, 0, 60, 60, 0 }, { 0, 1, 0, 59, 60 }, { 0, 1, 60, 127, 2200 }, { 0, 5, 0, 127, 70 } }, c[] = { { 0, 1, 0, 127, 30 }, { 0, 2, 0, 58, 40 }, { 0, 2, 59, 70, 5100 }, { 0, 2, 71, 127, 45 } };
    dc_bank(&bank[CA], a, 1, dls_flat, dls_nflat); dc_bank(&bank[CB], b, 5, dls_flat, dls_nflat); dc_bank(&bank[CC_], c, 4, dls_flat, dls_nflat);
    by_put(&junk, quiet.b, quiet.n); by_put(&cut, bank[CB].b, bank[CB].n * 2 / 3);
    calibrate();
    MC_CHECK(lev[CA][0] > 300 && lev[CB][0] > lev[CA][0] * 3 / 2 && lev[CC_][0] > lev[CB][0] * 3 / 2, "harness", "levels %d %d %d", lev[CA][0], lev[CB][0], lev[CC_][0]);
    int d = mc_thorough ? 8 : 6;
    mc_bound("every sequence of %d operations (3 collections loaded for the instance or for two files, 3 refused ones, opening and closing two live streams and two files with live streams, in any order, notes) up to depth %d; then every stream plays, everything is closed", NOPS, d);
    mc_model x = { .name = "collections", .nops = NOPS, .depth = d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    mc_explore(&x);
}
