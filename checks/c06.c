/* C06: how a MIDI byte stream is cut into writes does not matter, and a write neither changes nor over-reads its buffer. */
#include "sut.h"
const char mc_property[] = "C06";
static const struct { int n; u8 b[20]; } S[] = {
    { 14, { 0x90, 0x3c, 0x64, 0x40, 0x50, 0xf8, 0x43, 0x46, 0xc0, 0x05, 0x07, 0x90, 0x30, 0x64 } },
    { 14, { 0xf0, 0x7f, 0x7f, 0x04, 0x01, 0x00, 0x30, 0xf7, 0x91, 0x3c, 0x64, 0x3c, 0x00, 0xf6 } },
    { 14, { 0xb0, 0x65, 0x00, 0x64, 0x00, 0x06, 0x05, 0xe0, 0x10, 0x60, 0x90, 0x3c, 0x64, 0x3e } },
    { 14, { 0xc9, 0x00, 0x99, 0x24, 0x7f, 0xfe, 0x26, 0x7f, 0xf2, 0x11, 0x22, 0x92, 0x41, 0x55 } },
    { 14, { 0xf0, 0x7e, 0x7f, 0x09, 0x01, 0xf7, 0xb1, 0x07, 0x20, 0x91, 0x3c, 0x64, 0xf7, 0x3c } },
    { 14, { 0x90, 0x3c, 0x64, 0xd0, 0x40, 0x7f, 0xf3, 0x02, 0x93, 0x3c, 0xf8, 0x64, 0x80, 0x3c } },
    { 14, { 0xf0, 0x43, 0x10, 0x4c, 0xf8, 0x00, 0x90, 0x3c, 0x64, 0xa0, 0x3c, 0x10, 0xb0, 0x40 } },
    { 14, { 0xb2, 0x00, 0x79, 0x20, 0x01, 0xc2, 0x10, 0x92, 0x30, 0x60, 0x34, 0x60, 0x37, 0x60 } },
    { 17, { 0xf0, 0x7f, 0x7f, 0x0b, 0x01, 0x00, 0x04, 0x01, 0x08, 0xf7, 0x90, 0x3c, 0x64, 0x91, 0x3c, 0x64, 0x40 } },
    { 17, { 0x90, 0x3c, 0x64, 0x3e, 0x64, 0x40, 0x64, 0xb0, 0x40, 0x7f, 0x80, 0x3c, 0x40, 0x3e, 0x40, 0xb0, 0x7b } },
};
#define NS ((int)(sizeof S / sizeof S[0]))
static u64 first[NS + 1], want[NS]; static EAS_HANDLE H;
static void go(int s, u32 mask) {
    mc_fill(0); sut_init(); sut_dry(); H = sut_midi();
    static u8 copy[20];
    for (int a = 0; a < S[s].n; ) {
        int b = a + 1; while (b < S[s].n && !(mask >> (b - 1) & 1)) b++;
        u8 *p = mc_sut_malloc((size_t)(b - a)); memcpy(p, S[s].b + a, (size_t)(b - a)); memcpy(copy, p, (size_t)(b - a));
        EAS_RESULT r = EAS_WriteMIDIStream(E, H, p, b - a); mc_step(1);
        MC_CHECK(r == EAS_SUCCESS, "write", "EAS_WriteMIDIStream of %d bytes returned %ld", b - a, (long)r);
        MC_CHECK(!memcmp(p, copy, (size_t)(b - a)), "buffer", "EAS_WriteMIDIStream changed the caller's buffer");
        a = b;
    }
}
static u64 sound(void) {
    u64 h = 0; h = sut_render_hash(h); sut_w3(H, 0x90, 0x48, 0x60); sut_w3(H, 0x91, 0x32, 0x60); h = sut_render_hash(h); return sut_render_hash(h);
}
static void run(u64 i) {
    int s = 0; while (i >= first[s + 1]) s++;
    go(s, (u32)(i - first[s])); u64 h = sound(); mc_outcome(h);
    MC_CHECK(h == want[s], "chunking", "the same bytes written in different pieces sound different");
}
static void describe(u64 i, char *b, size_t n) {
    int s = 0; while (i >= first[s + 1]) s++; u32 mask = (u32)(i - first[s]); int o = 0;
    for (int k = 0; k < S[s].n; k++) o += snprintf(b + o, n - (size_t)o, "%s%02x", k ? (mask >> (k - 1) & 1 ? " | " : " ") : "", S[s].b[k]);
}
void mc_body(void) {
    mc_snap *b = mc_save(NULL); u64 f = 0; static u64 w[NS];
    for (int s = 0; s < NS; s++) { int n = S[s].n; first[s] = f; f += 1u << (n - 1); }
    first[NS] = f;
    mc_snap *c = mc_save(NULL);
    u64 *keep = mc_big(sizeof w);
    for (int s = 0; s < NS; s++) { go(s, 0); keep[s] = sound(); mc_restore(c); }
    memcpy(want, keep, sizeof want);
    mc_bound("%d byte streams of 14 to 17 bytes covering every kind of message, running status, real-time bytes and SysEx: all ways to cut each into writes (2^13 or 2^16), compared with one single write", NS);
    mc_space s = { .name = "splits", .n = f, .run = run, .describe = describe };
    mc_enumerate(&s); (void)b;
}
