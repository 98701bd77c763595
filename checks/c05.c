/* C05: the byte stream means exactly the MIDI messages it contains.
 * Two instances in lockstep: A receives the raw bytes one at a time, B receives only complete, canonically
 * encoded messages found in them by an independent reference tokenizer of the MIDI 1.0 specification. */
#include "sut.h"
const char mc_property[] = "C05";
typedef struct { EAS_DATA_HANDLE e; EAS_HANDLE h; } inst;
static inst A, B;

/* reference tokenizer */
static u8 rs, nd, dat[2], insx, sxn, sx[16], sxdone, common;
static void toB(const u8 *p, int n) { E = B.e; sut_write(B.h, p, n); E = A.e; }
static void ref(u8 c) {
    if (c >= 0xf8) return;                                    /* real time: anywhere, no effect */
    if (c >= 0x80) {
        if (c == 0xf7 && insx) { insx = 0; rs = 0; nd = 0; return; }
        insx = 0; nd = 0; common = 0; rs = 0;
        if (c == 0xf0) { insx = 1; sxn = 0; sxdone = 0; return; }
        if (c >= 0xf0) { common = c; return; }
        rs = c; return;
    }
    if (insx) {
        static const u8 vol[4] = { 0x7f, 0x7f, 0x04, 0x01 }, gm[3] = { 0x7e, 0x7f, 0x09 };
        if (sxdone) mc_skip();                                /* data after a complete universal message: not defined */
        if (sxn < sizeof sx) sx[sxn++] = c;
        if (sxn == 6 && !memcmp(sx, vol, 4)) { u8 m[8] = { 0xf0, 0x7f, 0x7f, 4, 1, sx[4], sx[5], 0xf7 }; toB(m, 8); sxdone = 1; }
        if (sxn == 4 && !memcmp(sx, gm, 3) && (c == 1 || c == 3)) { u8 m[6] = { 0xf0, 0x7e, 0x7f, 9, c, 0xf7 }; toB(m, 6); sxdone = 1; }
        if (sxn == 4 && !memcmp(sx, (const u8[]){ 0x7f, 0x7f, 0x0b, 1 }, 4)) mc_skip();          /* SP-MIDI: see C19 */
        if (!sxdone && sxn < sizeof sx) { int k = 0; for (int t = 0; t < 3; t++) { static const u8 P[3][4] = { { 0x7f, 0x7f, 4, 1 }, { 0x7e, 0x7f, 9 }, { 0x7f, 0x7f, 0x0b, 1 } }; static const int L[3] = { 4, 3, 4 }; int l = sxn < L[t] ? sxn : L[t]; k |= !memcmp(sx, P[t], (size_t)l) && sxn < (t == 1 ? 4 : 6); } if (!k) { memset(sx, 0, sizeof sx); sxn = sizeof sx; } }      /* means nothing: forget it */
        return;
    }
    if (!rs) return;                                          /* data of a system common message, or without status */
    dat[nd++] = c;
    int need = (rs & 0xe0) == 0xc0 ? 1 : 2;
    if (nd == need) { u8 m[3] = { rs, dat[0], dat[1] }; nd = 0; toB(m, 1 + need); }
}

static const struct { const char *n; u8 b[8]; } TOK[] = {
    { "1:90", { 0x90 } }, { "1:80", { 0x80 } }, { "1:91", { 0x91 } }, { "1:c0", { 0xc0 } }, { "1:b0", { 0xb0 } }, { "1:d0", { 0xd0 } }, { "1:e0", { 0xe0 } }, { "1:a0", { 0xa0 } },
    { "1:f0", { 0xf0 } }, { "1:f7", { 0xf7 } }, { "1:f2", { 0xf2 } }, { "1:f3", { 0xf3 } }, { "1:f6", { 0xf6 } }, { "1:f8", { 0xf8 } }, { "1:fe", { 0xfe } },
    { "1:3c", { 0x3c } }, { "1:40", { 0x40 } }, { "1:07", { 0x07 } }, { "1:00", { 0x00 } }, { "1:7f", { 0x7f } },
    { "5:f0 7f 7f 04 01", { 0xf0, 0x7f, 0x7f, 4, 1 } }, { "4:f0 7e 7f 09", { 0xf0, 0x7e, 0x7f, 9 } }, { "1:01", { 1 } }, { "3:90 40 64", { 0x90, 0x40, 0x64 } }, { "1:f1", { 0xf1 } }, { "1:ff", { 0xff } }, { "1:f4", { 0xf4 } }, { "render", { 0 } } };
#define NTOK ((int)(sizeof TOK / sizeof TOK[0]))
static const char *opname(int o) { return TOK[o].n + (TOK[o].n[1] == ':' ? 2 : 0); }
static void both(const char *what) {
    static EAS_PCM a[PCM_MAX];
    E = A.e; sut_render(); memcpy(a, PCM, sizeof a); E = B.e; sut_render();
    for (int i = 0; i < FRAME * 2; i++) if (a[i] != PCM[i]) mc_fail("stream", "%s: the raw stream and the messages in it give different audio (sample %d: %d and %d)", what, i, a[i], PCM[i]);
    E = A.e;
}
static void apply(int o) {
    if (o == NTOK - 1) { both("render"); return; }
    int n = TOK[o].n[0] - '0';
    for (int i = 0; i < n; i++) { sut_write(A.h, &TOK[o].b[i], 1); ref(TOK[o].b[i]); }
}
/* inside a system exclusive message */
static const u8 SXB[] = { 0, 1, 2, 3, 4, 5, 9, 0x0b, 0x3a, 0x40, 0x7e, 0x7f, 0xf0, 0xf7, 0xf8, 0x90 };
static const char *sname(int o) { static char b[4]; snprintf(b, sizeof b, "%02x", SXB[o]); return b; }
static void sapply(int o) { u8 c = SXB[o]; sut_write(A.h, &c, 1); ref(c); }
static void leaf(void) {
    if (insx && sxdone) { u8 c = 0xf7; sut_write(A.h, &c, 1); ref(c); }
    both("after the bytes");
    static const u8 p[][3] = { { 0x90, 0x48, 0x64 }, { 0x91, 0x43, 0x50 } };
    for (int i = 0; i < 2; i++) { sut_write(A.h, p[i], 3); toB(p[i], 3); }
    both("notes after the bytes"); both("notes after the bytes");
}
static void setup(void) {
    static EAS_PCM dummy;
    mc_fill(0);
    sut_init(); sut_dry(); A.e = E; A.h = sut_midi();
    sut_init(); sut_dry(); B.e = E; B.h = sut_midi();
    rs = nd = insx = common = 0; E = A.e;
    both("start");
}
static void ssetup(void) { setup(); static const u8 p[] = { 0xc0, 12, 0xe0, 0, 0x70, 0xb0, 7, 90, 0x90, 0x3c, 0x64 }; for (int i = 0; i < (int)sizeof p; i++) { sut_write(A.h, p + i, 1); ref(p[i]); } both("program, bend, volume, note"); u8 c = 0xf0; sut_write(A.h, &c, 1); ref(c); }
void mc_body(void) {
    int d = mc_thorough ? 8 : 6;
    mc_bound("byte sequences over %d tokens (every kind of status byte, real-time bytes, data bytes, universal SysEx prefixes) plus render: every sequence up to %d tokens, merged on equal states of both instances and the tokenizer", NTOK - 1, d);
    mc_model m = { .name = "tokens", .nops = NTOK, .depth = d, .setup = setup, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
    mc_explore(&m);
    int ds = mc_thorough ? 10 : 7;
    mc_bound("every sequence of up to %d of 16 bytes (those that lead through all the system exclusive messages the library knows, start, end, clock, note on) after the start of a system exclusive message", ds);
    mc_model x = { .name = "system exclusive", .nops = sizeof SXB, .depth = ds, .setup = ssetup, .apply = sapply, .leaf = leaf, .opname = sname, .dedupe = 1 };
    mc_explore(&x);
}
