/* A note sounds the same whatever its voice played before: bit for bit against a fresh instance.
 * The including file supplies AF_NA, AF_NB (numbers of articulations) and af_begin(a, b): an instance whose
 * keys below 64 have articulation a and a first wave, the others articulation b and a second one. */
static const int AFK[] = { 1, 2, 7, 30 }, AFN[] = { 1, 3 };
#define AFE 7
static const char *AFEN[AFE] = { "released and run out", "cut off", "cut off after its release", "held under the pedal and let go", "cut off at once", "left until its wave has ended", "stolen by the other" };
typedef struct { int a, b, k, n, e; } afcase;
static afcase af_decode(u64 i) { afcase c; c.a = (int)(i % AF_NA); i /= AF_NA; c.b = (int)(i % AF_NB); i /= AF_NB; c.k = AFK[i % 4]; i /= 4; c.n = AFN[i % 2]; i /= 2; c.e = (int)i; return c; }
#define AF_N (AF_NA * AF_NB * 4 * 2 * AFE)
static EAS_HANDLE AFH;
static u64 af_tail(u64 *each) { u64 h = 1; sut_w3(AFH, 0x90, 70, 100); for (int f = 0; f < 40; f++) { if (f == 20) sut_w3(AFH, 0x80, 70, 0); h = sut_render_hash(h); each[f] = h; } return h; }
static void afresh(u64 i) {
    afcase c = af_decode(i); u64 *x = mc_big(8 * 48); mc_snap *s = mc_save(NULL);
    if ((c.e == 5 && c.a != 5) || (c.e == 6 && c.a == 5 && c.k > 7)) mc_skip();      /* instrument 5 is the one whose wave ends */
    AFH = af_begin(c.a, c.b); int fr = 0; if (c.e == 6) { if (c.n > 1) mc_skip(); EAS_SetSynthPolyphony(E, 0, 1); }
    for (int k = 0; k < c.n; k++) sut_w3(AFH, 0x90, 40 + k, 127);
    if (c.e == 3) sut_w3(AFH, 0xb0, 64, 127);
    for (int f = 0; f < c.k; f++, fr++) sut_render();
    if (c.e != 1 && c.e < 4) for (int k = 0; k < c.n; k++) sut_w3(AFH, 0x80, 40 + k, 0);
    if (c.e == 2) for (int f = 0; f < 3; f++, fr++) sut_render();
    if (c.e == 3) { for (int f = 0; f < 3; f++, fr++) sut_render(); sut_w3(AFH, 0xb0, 64, 0); }
    if (c.e == 1 || c.e == 2 || c.e == 4) sut_w3(AFH, 0xb0, 120, 0);
    if (c.e == 6) { if (pcm_silent()) mc_skip(); sut_w3(AFH, 0x90, 70, 100); sut_render(); fr++; for (int f = 0; f < 40; f++) { if (f == 20) sut_w3(AFH, 0x80, 70, 0); x[f] = sut_render_hash(f ? x[f - 1] : 1); } }
    else if (c.e != 4) { int quiet = 0; for (int f = 0; f < 4 || quiet < 3; f++, fr++) { sut_render(); quiet = pcm_silent() ? quiet + 1 : 0; if (f > 600) break; } if (quiet < 3) x[46] = 1; }
    else for (int f = 0; f < 1; f++, fr++) sut_render();
    x[45] = (u64)fr; x[47] = (u64)pcm_silent(); if (c.e != 6) af_tail(x); mc_restore(s); mc_count("afresh", 1); u64 was[48]; memcpy(was, x, sizeof was);
    if (was[46]) { mc_snap_free(s); mc_count("still sounding", 1); mc_skip(); }
    AFH = af_begin(c.a, c.b); if (c.e == 6) EAS_SetSynthPolyphony(E, 0, 1); for (u64 f = 0; f < was[45]; f++) sut_render(); af_tail(x);
    for (int f = 0; f < 40; f++) MC_CHECK(x[f] == was[f], "afresh", "frame %d of a note differs from the same note of a fresh instance (%d frames after)", f, (int)was[45]);
    mc_snap_free(s);
}
static void afresh_describe(u64 i, char *o, size_t n) { afcase c = af_decode(i); snprintf(o, n, "%d notes of instrument %d for %d frames, %s, then a note of instrument %d", c.n, c.a, c.k, AFEN[c.e], c.b); }
