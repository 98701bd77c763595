/* helpers of the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "eas.h"
#include "eas_reverb.h"
#include "eas_chorus.h"
typedef struct { const unsigned char *p; int n; } mf;
static int m_read(void *h, void *b, int o, int n) { mf *f = h; if (o < 0 || o > f->n) return 0; if (n > f->n - o) n = f->n - o; memcpy(b, f->p + o, n); return n; }
static int m_size(void *h) { return ((mf *)h)->n; }
static EAS_DATA_HANDLE E; static EAS_PCM B[256 * 2 + 64];
#define BAD(...) do { printf("BAD: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
#define OK(x) do { long r_ = (long)(x); if (r_) BAD("%s = %ld (line %d)", #x, r_, __LINE__); } while (0)
static void init(void) { OK(EAS_Init(&E)); OK(EAS_SetParameter(E, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_TRUE)); OK(EAS_SetParameter(E, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, EAS_TRUE)); }
static int frame(void) { EAS_I32 n = 0; int pk = 0; OK(EAS_Render(E, B, 256, &n)); if (n != 256) BAD("rendered %ld", (long)n); for (int i = 0; i < 512; i++) if (abs(B[i]) > pk) pk = abs(B[i]); return pk; }
static int frames(int n) { int pk = 0; while (n--) { int p = frame(); if (p > pk) pk = p; } return pk; }
static int side(int s) { int pk = 0; for (int i = s; i < 512; i += 2) if (abs(B[i]) > pk) pk = abs(B[i]); return pk; }
static EAS_FILE FL[16]; static mf MF[16]; static int nfl;
static EAS_FILE *memf(const void *p, int n) { int k = nfl++ & 15; MF[k] = (mf){ p, n }; memset(&FL[k], 0, sizeof FL[k]); FL[k].handle = &MF[k]; FL[k].readAt = m_read; FL[k].size = m_size; return &FL[k]; }
static EAS_HANDLE opn(const void *p, int n) { EAS_HANDLE h = NULL; OK(EAS_OpenFile(E, memf(p, n), &h)); OK(EAS_Prepare(E, h)); return h; }
static EAS_HANDLE live(void) { EAS_HANDLE h = NULL; OK(EAS_OpenMIDIStream(E, &h, NULL)); return h; }
#define W(h, ...) do { unsigned char w_[] = { __VA_ARGS__ }; OK(EAS_WriteMIDIStream(E, h, w_, sizeof w_)); } while (0)
/* songs: build with S_* into SB */
static unsigned char SB[65536]; static int SN, SM;
static void s_b(int v) { SB[SN++] = v; }
static void s_32(unsigned v) { s_b(v >> 24); s_b(v >> 16); s_b(v >> 8); s_b(v); }
static void s_head(int fmt, int trk, int div) { SN = 0; memcpy(SB, "MThd", 4); SN = 4; s_32(6); s_b(0); s_b(fmt); s_b(trk >> 8); s_b(trk); s_b(div >> 8); s_b(div); }
static void s_trk(void) { memcpy(SB + SN, "MTrk", 4); SN += 8; SM = SN; }
static void s_dt(unsigned v) { if (v >= 1 << 21) s_b(128 | v >> 21); if (v >= 1 << 14) s_b(128 | (v >> 14 & 127)); if (v >= 128) s_b(128 | (v >> 7 & 127)); s_b(v & 127); }
#define EV(dt, ...) do { unsigned char w_[] = { __VA_ARGS__ }; s_dt(dt); for (unsigned i_ = 0; i_ < sizeof w_; i_++) s_b(w_[i_]); } while (0)
static void s_end(unsigned dt) { int n; EV(dt, 0xff, 0x2f, 0); n = SN - SM; SB[SM - 4] = n >> 24; SB[SM - 3] = n >> 16; SB[SM - 2] = n >> 8; SB[SM - 1] = n; }
/* DLS: one bank of square-ish looped waves */
static unsigned char DB[65536]; static int DN;
static void d_p(const void *p, int n) { memcpy(DB + DN, p, n); DN += n; }
static void d_16(int v) { DB[DN++] = v; DB[DN++] = v >> 8; }
static void d_32(unsigned v) { d_16(v); d_16(v >> 16); }
static int d_ck(const char *id, const char *type) { int m; d_p(id, 4); d_32(0); m = DN; if (type) d_p(type, 4); return m; }
static void d_ek(int m) { unsigned n = DN - m; DB[m - 4] = n; DB[m - 3] = n >> 8; DB[m - 2] = n >> 16; DB[m - 1] = n >> 24; if (n & 1) DB[DN++] = 0; }
/* a collection: d_coll(ninstruments), then d_ins(locale bank, program, nregions) d_rgn(...) ... d_insend(connections), then d_waves() */
static int d_m[8];
static void d_coll(int n) { DN = 0; d_m[0] = d_ck("RIFF", "DLS "); int m = d_ck("colh", NULL); d_32(n); d_ek(m); d_m[1] = d_ck("LIST", "lins"); }
static void d_ins(unsigned bank, int prog, int nr) { d_m[2] = d_ck("LIST", "ins "); int m = d_ck("insh", NULL); d_32(nr); d_32(bank); d_32(prog); d_ek(m); d_m[3] = d_ck("LIST", "lrgn"); }
static void d_wsmp(int unity, int fine, int gain, int ls, int ll) { int m = d_ck("wsmp", NULL); d_32(20); d_16(unity); d_16(fine); d_32(gain); d_32(0); d_32(ll > 0); if (ll > 0) { d_32(16); d_32(0); d_32(ls); d_32(ll); } d_ek(m); }
static void d_art(const int *c) { int n = 0; if (!c) return; while (c[n * 3]) n++; int l = d_ck("LIST", "lart"), m = d_ck("art1", NULL); d_32(8); d_32(n); for (int i = 0; i < n; i++) { int s = c[i * 3]; d_16(s >> 8 & 255); d_16(s & 255); d_16(c[i * 3 + 1]); d_16(0); d_32(c[i * 3 + 2]); } d_ek(m); d_ek(l); }
static void d_rgn(int klo, int khi, int vlo, int vhi, int grp, int unity, int fine, int gain, int ls, int ll, int wave, const int *art) { int l = d_ck("LIST", "rgn "), m = d_ck("rgnh", NULL); d_16(klo); d_16(khi); d_16(vlo); d_16(vhi); d_16(0); d_16(grp); d_ek(m); d_wsmp(unity, fine, gain, ls, ll); m = d_ck("wlnk", NULL); d_16(0); d_16(0); d_32(1); d_32(wave); d_ek(m); d_art(art); d_ek(l); }
static void d_insend(const int *art) { d_ek(d_m[3]); d_art(art); d_ek(d_m[2]); }
/* waves: 8-bit, 22050 Hz, 256 samples, square of 32*(i+1) peak, period 32 samples; count n */
static void d_waves(int n, int bits, int len) { d_ek(d_m[1]); int m = d_ck("ptbl", NULL), off[8]; d_32(8); d_32(n); int at = DN; for (int i = 0; i < n; i++) d_32(0); d_ek(m); int l = d_ck("LIST", "wvpl"), b = DN; for (int i = 0; i < n; i++) { off[i] = DN - b; int w = d_ck("LIST", "wave"); m = d_ck("fmt ", NULL); d_16(1); d_16(1); d_32(22050); d_32(22050 * bits / 8); d_16(bits / 8); d_16(bits); d_ek(m); m = d_ck("data", NULL); for (int k = 0; k < len; k++) { int v = (k / 16 & 1 ? 1 : -1) * 16 * (i + 1); if (bits == 8) DB[DN++] = v + 128; else d_16(v * 256); } d_ek(m); d_ek(w); } d_ek(l); d_ek(d_m[0]); for (int i = 0; i < n; i++) { DB[at + 4 * i] = off[i]; DB[at + 4 * i + 1] = off[i] >> 8; DB[at + 4 * i + 2] = off[i] >> 16; } }
