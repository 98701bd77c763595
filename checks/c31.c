/* C31: a broken ringtone or XMF file never harms the process or the instance (the formats the build lists as optional). */
#include "robust.h"
const char mc_property[] = "C31";
static bytes F[10]; static const char *FN[10]; static int NF; static bytes W;
static EAS_FILE ef; static mc_file em;
/* bit stream for OTA */
static u32 bacc; static int bn;
static void bit(bytes *o, u32 v, int n) { for (int i = n - 1; i >= 0; i--) { bacc = bacc << 1 | (v >> i & 1); if (++bn == 8) { by_u8(o, (int)(bacc & 255)); bn = 0; bacc = 0; } } }
static void bflush(bytes *o) { while (bn) bit(o, 0, 1); }
static void ota_note(bytes *o, int n, int d, int m) { bit(o, 1, 3); bit(o, (u32)n, 4); bit(o, (u32)d, 3); bit(o, (u32)m, 2); }
static void xvlq(bytes *o, u32 v) { by_u8(o, 0x80 | (v >> 7 & 0x7f)); by_u8(o, v & 0x7f); }       /* always two bytes: sizes stay put */
static void xmf(bytes *o, int refs) {
    bytes s = {0}, d = {0}; int m; smf_head(&s, 0, 1, 96); m = smf_trk(&s); smf_ev2(&s, 0, 0xc0, 0); smf_ev3(&s, 0, 0x90, 60, 100); smf_ev3(&s, 30, 0x80, 60, 0); smf_eot(&s, 1); smf_endtrk(&s, m);
    if (refs != 2) { static const dc_note t[] = { { .bank = 0, .prog = 0, .klo = 0, .khi = 127, .level = 5000 } }; dc_bank(&d, t, 1, dls_flat, dls_nflat); }
    /* header: id, version, length, metadata types table, tree start, tree end */
    by_put(o, refs ? "XMF_1.00" : "XMF_2.00\0\0\0\2\0\0\0\1", refs ? 8 : 16); int hl = o->n, tree = hl + 2 + 1 + 2 + 2;
    int nchild = d.n ? 2 : 1, child[2], hdr = 7, len = 0;       /* node header: length(2) items(1) headerlength(1) metadata(1) ... */
    for (int i = 0; i < nchild; i++) { child[i] = 2 + 1 + 1 + 1 + 1 + (refs == 1 ? 2 : i ? s.n : d.n ? d.n : s.n); len += child[i]; }
    int root = 2 + 1 + 1 + 1 + 1 + len, total = tree + root + (refs == 1 ? s.n + d.n : 0), ref = tree + root;
    xvlq(o, (u32)total); by_u8(o, 0); xvlq(o, (u32)tree); xvlq(o, (u32)(tree + root - 1));
    xvlq(o, (u32)root); by_u8(o, nchild); by_u8(o, 5); by_u8(o, 0); by_u8(o, 1);
    for (int i = 0; i < nchild; i++) {
        const bytes *c = i || !d.n ? &s : &d; xvlq(o, (u32)child[i]); by_u8(o, 0); by_u8(o, 5); by_u8(o, 0); by_u8(o, refs == 1 ? 2 : 1);
        if (refs == 1) { xvlq(o, (u32)ref); ref += c->n; } else by_put(o, c->b, c->n);
    }
    if (refs == 1) { by_put(o, d.b, d.n); by_put(o, s.b, s.n); }
    by_free(&s); by_free(&d);
}
static void add(const char *n, const char *t) { FN[NF] = n; by_put(&F[NF++], t, (int)strlen(t)); }
static const char IMY[] = "BEGIN:IMELODY\r\nVERSION:1.2\r\nFORMAT:CLASS1.0\r\nNAME:Tune\r\nCOMPOSER:me\r\nBEAT:240\r\nSTYLE:S1\r\nVOLUME:V7\r\nMELODY:&b4r3*5#c5V+(d4.ledon\r\nvibeoffe5;@2V+)f5:backon*3\r\ng5\r\nEND:IMELODY\r\n";
static void files(void) {
    add("ringtone text", "Tst:d=8,o=5,b=400,l=2,s=s:c,4d#6,16e.,b,32p,b6,o4,a,b500,ss,h5,");
    add("ringtone text 2", "A : d=4 , o=6 , b=900 : 32e , 16 p , h5.");
    add("iMelody", IMY);
    add("iMelody 2", "BEGIN:IMELODY\nVERSION:1.0\nFORMAT:CLASS2.0\nBEAT:900\nMELODY:(c5@0)\nEND:IMELODY");
    bytes *o = &F[NF]; FN[NF++] = "OTA"; by_u8(o, 2); by_u8(o, 0x4a); bn = 0; bit(o, 0x1d, 7); bit(o, 1, 3); bit(o, 3, 4); bit(o, 'a', 8); bit(o, 'b', 8); bit(o, 'c', 8);
    bit(o, 2, 8); bit(o, 0, 3); bit(o, 1, 2); bit(o, 1, 4); bit(o, 6, 8); bit(o, 4, 3); bit(o, 28, 5); bit(o, 2, 3); bit(o, 1, 2); bit(o, 3, 3); bit(o, 2, 2); ota_note(o, 5, 4, 1); ota_note(o, 0, 5, 3); bit(o, 5, 3); bit(o, 9, 4);
    bit(o, 0, 3); bit(o, 1, 2); bit(o, 2, 4); bit(o, 0, 8); bflush(o); by_u8(o, 0);
    o = &F[NF]; FN[NF++] = "OTA, unicode title, endless loop"; by_u8(o, 3); by_u8(o, 0x4a); by_u8(o, 0x44); bn = 0; bit(o, 0x1d, 7); bit(o, 1, 3); bit(o, 1, 4); bit(o, 0, 8); bit(o, 'b', 8); bit(o, 1, 8); bit(o, 0, 3); bit(o, 3, 2); bit(o, 15, 4); bit(o, 2, 8); bit(o, 4, 3); bit(o, 31, 5); ota_note(o, 12, 5, 2); bflush(o); by_u8(o, 0);
    FN[NF] = "XMF 2, inline"; xmf(&F[NF++], 0); FN[NF] = "XMF 1, referenced"; xmf(&F[NF++], 1); FN[NF] = "XMF 1, no sounds"; xmf(&F[NF++], 2);
}
/* metadata callback: what it is handed must be a terminated string inside the buffer */
static char mb[3][32]; static int mbs;
static void meta(E_EAS_METADATA_TYPE t, char *m, EAS_VOID_PTR p) { MC_CHECK(m == mb[1] && memchr(m, 0, (size_t)mbs), "metadata", "a metadata text is not terminated inside the buffer of %d bytes", mbs); mc_outcome(mc_hash(m, strlen(m), 3)); }
enum { NMODE = 6 };
static void feed(const bytes *b, int n, int mode) {
    sut_init(); sut_dry(); memset(mb, 0x77, sizeof mb); mbs = 4;
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, sut_file(&ef, &em, b->b, n), &h);
    mc_count(r == EAS_SUCCESS ? "accepted" : "rejected", 1); mc_outcome((u64)r * 3);
    if (r == EAS_SUCCESS) {
        MC_CHECK(h != NULL, "open", "EAS_OpenFile succeeded without a handle");
        EAS_RESULT p = EAS_Prepare(E, h); mc_outcome((u64)p * 3 + 1);
        EAS_STATE st; EAS_I32 t;
        if (p == EAS_SUCCESS) {
            if (mode & 1) { r = EAS_RegisterMetaDataCallback(E, h, meta, mb[1], mbs, NULL); MC_CHECK(r == EAS_SUCCESS, "register", "EAS_RegisterMetaDataCallback returned %ld for a prepared file", (long)r); }
            EAS_I32 ft; r = EAS_GetFileType(E, h, &ft); MC_CHECK(r == EAS_SUCCESS, "type", "the type of a prepared file is not known"); mc_outcome((u64)ft * 7 + 5); mc_count((const char *[]){ "SMF0", "SMF1", "SMAF", "SMAF", "CMX", "CMX", "XMF0", "XMF1", "wave", "OTA", "iMelody", "ringtone text" , "other" }[ft >= 1 && ft <= 12 ? ft - 1 : 12], 1);
            if (mode == 1) { EAS_I32 len; (void)EAS_ParseMetaData(E, h, &len); }
            if (mode == 2) { (void)soft_render(); (void)EAS_Locate(E, h, 40, EAS_FALSE); (void)soft_render(); (void)EAS_Locate(E, h, 15, EAS_FALSE); }
            if (mode == 3) { (void)EAS_SetRepeat(E, h, 1); }
            if (mode == 4) { (void)soft_render(); (void)soft_render(); (void)EAS_Pause(E, h); (void)soft_render(); (void)soft_render(); (void)EAS_Resume(E, h); }
            if (mode == 5) { (void)EAS_SetRepeat(E, h, -1); }
            int k = mode == 3 || mode == 5 ? 24 : 10;
            for (int i = 0; i < k; i++) { r = soft_render(); if (r != EAS_SUCCESS) { mc_outcome((u64)r * 3 + 2); mc_count("playback error", 1); (void)soft_render(); break; } }
            (void)EAS_State(E, h, &st); (void)EAS_GetLocation(E, h, &t);
        }
        r = EAS_CloseFile(E, h); MC_CHECK(r == EAS_SUCCESS, "close", "closing a broken file returned %ld", (long)r);
    }
    for (int i = 0; i < 32; i++) MC_CHECK(mb[0][i] == 0x77 && mb[2][i] == 0x77 && (i < mbs || mb[1][i] == 0x77), "metadata-overrun", "the metadata buffer of %d bytes was overrun", mbs);
    probe("broken file"); all_done();
}
static int cur;
static void run_byte(u64 i) { int p = (int)(i >> 8), v = (int)(i & 255); bytes *f = &F[cur]; memcpy(W.b, f->b, (size_t)f->n); W.b[p] = (u8)v; feed(&W, f->n, (p + v) % NMODE); }
static void d_byte(u64 i, char *b, size_t c) { snprintf(b, c, "%s with byte %d set to %02x", FN[cur], (int)(i >> 8), (int)(i & 255)); }
static void run_cut(u64 i) { feed(&F[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static void d_cut(u64 i, char *b, size_t c) { snprintf(b, c, "%s cut after %d bytes, mode %d", FN[cur], (int)(i / NMODE), (int)(i % NMODE)); }
static const u8 PV[2][4] = { { ':', '9', 'b', '(' }, { 0x00, 0x7f, 0x80, 0xff } };
static int plim(int f) { return FN[f][0] == 'X' && F[f].n > 110 ? 110 : F[f].n; }
static void run_pair(u64 i) {
    bytes *f = &F[cur]; int pl = plim(cur), b = (int)(i & 3), a = (int)(i >> 2 & 3); i >>= 4; int p = (int)(i / (u64)pl), q = (int)(i % (u64)pl); if (p >= q) mc_skip();
    const u8 *v = PV[FN[cur][0] == 'X' || FN[cur][0] == 'O']; memcpy(W.b, f->b, (size_t)f->n); W.b[p] = v[a]; W.b[q] = v[b]; feed(&W, f->n, (p + q) % NMODE);
}
static void d_pair(u64 i, char *b, size_t c) { int pl = plim(cur); const u8 *v = PV[FN[cur][0] == 'X' || FN[cur][0] == 'O']; snprintf(b, c, "%s with byte %d = %02x and byte %d = %02x", FN[cur], (int)((i >> 4) / (u64)pl), v[i >> 2 & 3], (int)((i >> 4) % (u64)pl), v[i & 3]); }
/* all short bodies */
static const char *const AL[] = { "cbhpo#.,9416 s", "c&br(4)@V*0+.l3v", NULL };
static const char *const HEAD[] = { "T:d=32,o=5,b=900:", "BEGIN:IMELODY\nVERSION:1.2\nFORMAT:CLASS1.0\nBEAT:900\nMELODY:", NULL };
static const u8 OB[] = { 0x00, 0x01, 0x04, 0x08, 0x10, 0x20, 0x24, 0x2f, 0x41, 0x5f, 0x80, 0xa0, 0xaa, 0xf0, 0xff, 0x0f };
static int bk, bl;
static int nal(int k) { return k < 2 ? (int)strlen(AL[k]) : 16; }
static void body(u64 i, u8 *o) { int n = nal(bk); for (int k = 0; k < bl; k++) { o[k] = bk < 2 ? (u8)AL[bk][i % (u64)n] : OB[i % (u64)n]; i /= (u64)n; } o[bl] = 0; }
static void run_body(u64 i) {
    u8 t[16]; body(i, t); W.n = 0; if (bk < 2) by_put(&W, HEAD[bk], (int)strlen(HEAD[bk])); else { by_u8(&W, 2); by_u8(&W, 0x4a); by_u8(&W, 0x3a); by_u8(&W, 0x40); by_u8(&W, 2); }
    by_put(&W, t, bl); if (bk == 1) by_put(&W, "\nEND:IMELODY\n", 13); feed(&W, W.n, (int)((i ^ i >> 5) % NMODE));
}
static void d_body(u64 i, char *b, size_t c) { u8 t[16]; body(i, t); if (bk < 2) snprintf(b, c, "the melody \"%s\"", (char *)t); else snprintf(b, c, "OTA, one song of the bytes %s", hex(t, bl)); }
/* headers: every order of header fields, with odd values */
static const char *const RH[] = { "d=8", "o=5", "b=900", "l=2", "s=s", "d=3", "o=9", "b=5", "l=99", "b=99999999999", "x=1", "d", "=", "", "s=x", "l=15" };
static const char *const IH[] = { "VERSION:1.2", "VERSION:1.0.0.0.0.0.0", "FORMAT:CLASS2.0", "NAME:abcdefghijklmnopqrstuvwxyz", "COMPOSER:", "BEAT:99999999999999999999", "BEAT:", "STYLE:S2", "STYLE:", "VOLUME:V99", "VOLUME:", "VOLUME:7", "MELODY:c3", "END:IMELODY", "FORMAT:CLASS", "" ,
    "NAME:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "VOLUME:V-", "BEAT:25", "VERSION:1" };
#define CNT(a) ((int)(sizeof a / sizeof *a))
static void head(u64 i) {
    u64 j = i >> 1; W.n = 0;
    if (i & 1) { by_put(&W, "BEGIN:IMELODY\n", 14); for (int k = 0; k < 3; k++) { const char *s = IH[j % CNT(IH)]; j /= CNT(IH); by_put(&W, s, (int)strlen(s)); by_u8(&W, '\n'); } by_put(&W, "MELODY:c3d3\nEND:IMELODY", 23); }
    else { by_put(&W, "N:", 2); for (int k = 0; k < 3; k++) { const char *s = RH[j % CNT(RH)]; j /= CNT(RH); by_put(&W, s, (int)strlen(s)); by_u8(&W, k < 2 ? ',' : ':'); } by_put(&W, "c,d,e", 5); }
}
static void run_head(u64 i) { u64 m = i % NMODE; i /= NMODE; head(i); feed(&W, W.n, (int)m); }
static void d_head(u64 i, char *b, size_t c) { head(i / NMODE); by_u8(&W, 0); snprintf(b, c, "%s", (char *)W.b); for (char *p = b; *p; p++) if (*p == '\n') *p = '|'; }
/* OTA: pattern structure (song of up to 3 patterns that define or repeat one another, any loop count) */
static void ota(u64 i, bytes *o) {
    u64 j = i; int np = 1 + (int)(j % 3); j /= 3; int loop = (int[]){ 0, 1, 14, 15 }[j % 4]; j /= 4; bacc = 0; bn = 0;
    o->n = 0; by_u8(o, 2); by_u8(o, 0x4a); bit(o, 0x1d, 7); bit(o, 1 + (int)(j & 1), 3); if (!(j & 1)) bit(o, 0, 4); j >>= 1; bit(o, (u32)np, 8);
    for (int k = 0; k < np; k++) {
        int id = (int)(j % 4); j /= 4; int kind = (int)(j % 6); j /= 6; bit(o, 0, 3); bit(o, (u32)id, 2); bit(o, (u32)loop, 4);
        if (kind == 0) bit(o, 0, 8);
        else if (kind == 1) { bit(o, 1, 8); ota_note(o, 3, 5, 0); }
        else if (kind == 2) { bit(o, 2, 8); bit(o, 3, 3); bit(o, 1, 2); bit(o, 2, 3); bit(o, 2, 2); }          /* no note at all */
        else if (kind == 3) { bit(o, 1, 8); bit(o, 7, 3); }                                                    /* unknown instruction */
        else if (kind == 4) { bit(o, 4, 8); bit(o, 3, 3); bit(o, 2, 2); ota_note(o, 15, 0, 3); ota_note(o, 0, 7, 2); bit(o, 4, 3); bit(o, 31, 5); }
        else bit(o, 255, 8);                                                                                   /* longer than the file */
    }
    bflush(o); by_u8(o, 0);
}
static void run_ota(u64 i) { u64 m = i % NMODE; ota(i / NMODE, &W); feed(&W, W.n, (int)m); }
static void d_ota(u64 i, char *b, size_t c) { ota(i / NMODE, &W); snprintf(b, c, "OTA song %s", hex(W.b, W.n)); }

/* XMF: folders in folders in folders ... */
static const int DEEP[] = { 1, 10, 97, 98, 99, 100, 101, 102, 103, 200, 1000, 10000, 60000, 200000 };
static void x4(bytes *o, u32 v) { by_u8(o, 0x80 | (v >> 21 & 0x7f)); by_u8(o, 0x80 | (v >> 14 & 0x7f)); by_u8(o, 0x80 | (v >> 7 & 0x7f)); by_u8(o, v & 0x7f); }
static void deep(u64 i) {
    int n = DEEP[i % CNT(DEEP)], items = 1 + (int)(i / CNT(DEEP) % 3); static const char song[] = "MThd\0\0\0\6\0\0\0\1\0\140MTrk\0\0\0\14\0\220\74\144\36\200\74\0\1\377\57\0"; int sl = sizeof song - 1, tree = 16 + 4 + 1 + 8, len = 8 + sl;
    W.n = 0; by_put(&W, "XMF_2.00\0\0\0\2\0\0\0\1", 16); x4(&W, (u32)(tree + len + n * 8)); by_u8(&W, 0); x4(&W, (u32)tree); x4(&W, (u32)(tree + len + n * 8 - 1));
    for (int k = n; k >= 0; k--) { x4(&W, (u32)(len + k * 8)); by_u8(&W, k ? items : 0); by_u8(&W, 7); by_u8(&W, 0); by_u8(&W, 1); } by_put(&W, song, sl);
}
static void run_deep(u64 i) { deep(i); feed(&W, W.n, (int)(i / CNT(DEEP) / 3)); }
static void d_deep(u64 i, char *b, size_t c) { snprintf(b, c, "XMF with a song in %d folders, each claiming %d items, mode %d", DEEP[i % CNT(DEEP)], 1 + (int)(i / CNT(DEEP) % 3), (int)(i / CNT(DEEP) / 3)); }

void mc_body(void) {
    files(); good_record(); W.n = 0; by_be32(&W, 0); { static u8 z[4096]; for (int k = 0; k < 400; k++) by_put(&W, z, sizeof z); by_put(&W, z, 1000); }
    static char nm[10][5][24]; int L = mc_thorough ? 5 : 4;
    mc_bound("%d well-formed files (2 ringtone texts, 2 iMelody, 2 OTA, 3 XMF): every single byte x 256 values, every truncation x %d usages, every pair of bytes over 4 values (XMF: within the first 110 bytes); all melody bodies of up to %d characters over 14-16 symbols; header field combinations of length 3; 3-pattern OTA songs; XMF folders nested 1 to 200000 deep", NF, NMODE, L);
    for (cur = 0; cur < NF; cur++) {
        u64 n = (u64)F[cur].n, p = (u64)plim(cur);
        snprintf(nm[cur][0], 24, "byte %d", cur); mc_space a = { .name = nm[cur][0], .n = n * 256, .run = run_byte, .describe = d_byte, .cpu_limit = 5 }; mc_enumerate(&a);
        snprintf(nm[cur][1], 24, "cut %d", cur); mc_space b = { .name = nm[cur][1], .n = (n + 1) * NMODE, .run = run_cut, .describe = d_cut, .cpu_limit = 5 }; mc_enumerate(&b);
        snprintf(nm[cur][2], 24, "pair %d", cur); mc_space e = { .name = nm[cur][2], .n = p * p * 16, .run = run_pair, .describe = d_pair, .cpu_limit = 5 }; mc_enumerate(&e);
    }
    static char bm[3][8][24];
    for (bk = 0; bk < 3; bk++) for (bl = 0; bl <= L; bl++) { u64 n = 1; for (int k = 0; k < bl; k++) n *= (u64)nal(bk); snprintf(bm[bk][bl], 24, "body %d %d", bk, bl); mc_space a = { .name = bm[bk][bl], .n = n, .run = run_body, .describe = d_body, .cpu_limit = 5 }; mc_enumerate(&a); }
    mc_space dp = { .name = "deep", .n = CNT(DEEP) * 3 * NMODE, .run = run_deep, .describe = d_deep, .cpu_limit = 10 }; mc_enumerate(&dp);
    mc_space h = { .name = "header", .n = (u64)2 * CNT(IH) * CNT(IH) * CNT(IH) * NMODE, .run = run_head, .describe = d_head, .cpu_limit = 5 }; mc_enumerate(&h);
    mc_space v = { .name = "patterns", .n = (u64)3 * 4 * 2 * 24 * 24 * (mc_thorough ? 6 : 1) * NMODE, .run = run_ota, .describe = d_ota, .cpu_limit = 5 }; mc_enumerate(&v);
}
