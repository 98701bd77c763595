#include "sut.h"
#include <stdarg.h>
#include <sys/mman.h>

static void need(bytes *o, int n) {
    if (o->n + n <= o->cap) return;
    int c = o->cap ? o->cap * 2 : 4096; while (c < o->n + n) c *= 2;
    u8 *p = mc_big((size_t)c); memcpy(p, o->b, (size_t)o->n);
    if (o->b) munmap(o->b, (size_t)o->cap);
    o->b = p; o->cap = c;
}
void by_put(bytes *o, const void *p, int n) { need(o, n); memcpy(o->b + o->n, p, (size_t)n); o->n += n; }
void by_u8(bytes *o, int v) { u8 c = (u8)v; by_put(o, &c, 1); }
void by_le16(bytes *o, int v) { by_u8(o, v); by_u8(o, v >> 8); }
void by_le32(bytes *o, u32 v) { by_le16(o, (int)(v & 0xffff)); by_le16(o, (int)(v >> 16)); }
void by_be16(bytes *o, int v) { by_u8(o, v >> 8); by_u8(o, v); }
void by_be32(bytes *o, u32 v) { by_be16(o, (int)(v >> 16)); by_be16(o, (int)(v & 0xffff)); }
void by_vlq(bytes *o, u32 v) { u8 t[5]; int n = 0; do { t[n++] = v & 0x7f; v >>= 7; } while (v); while (n--) by_u8(o, t[n] | (n ? 0x80 : 0)); }
void by_free(bytes *o) { if (o->b) munmap(o->b, (size_t)o->cap); memset(o, 0, sizeof *o); }

void smf_head(bytes *o, int format, int ntrk, int division) { by_put(o, "MThd", 4); by_be32(o, 6); by_be16(o, format); by_be16(o, ntrk); by_be16(o, division); }
int smf_trk(bytes *o) { by_put(o, "MTrk", 4); by_be32(o, 0); return o->n; }
void smf_ev(bytes *o, u32 d, const u8 *p, int n) { by_vlq(o, d); by_put(o, p, n); }
void smf_ev3(bytes *o, u32 d, int a, int b, int c) { by_vlq(o, d); by_u8(o, a); by_u8(o, b); by_u8(o, c); }
void smf_ev2(bytes *o, u32 d, int a, int b) { by_vlq(o, d); by_u8(o, a); by_u8(o, b); }
void smf_meta(bytes *o, u32 d, int type, const void *p, int n) { by_vlq(o, d); by_u8(o, 0xff); by_u8(o, type); by_vlq(o, (u32)n); by_put(o, p, n); }
void smf_tempo(bytes *o, u32 d, u32 us) { u8 t[3] = { (u8)(us >> 16), (u8)(us >> 8), (u8)us }; smf_meta(o, d, 0x51, t, 3); }
void smf_eot(bytes *o, u32 d) { smf_meta(o, d, 0x2f, "", 0); }
void smf_endtrk(bytes *o, int m) { u32 n = (u32)(o->n - m); u8 *p = o->b + m - 4; p[0] = (u8)(n >> 24); p[1] = (u8)(n >> 16); p[2] = (u8)(n >> 8); p[3] = (u8)n; }

/* ---- DLS ---- */
static int ck(bytes *o, const char *id) { by_put(o, id, 4); by_le32(o, 0); return o->n; }
static int ls(bytes *o, const char *form) { int m = ck(o, "LIST"); by_put(o, form, 4); return m; }
static void ke(bytes *o, int m) { u32 n = (u32)(o->n - m); u8 *p = o->b + m - 4; p[0] = (u8)n; p[1] = (u8)(n >> 8); p[2] = (u8)(n >> 16); p[3] = (u8)(n >> 24); if (n & 1) by_u8(o, 0); }
static void put_wsmp(bytes *o, const d_wsmp *w) {
    if (!w->use) return;
    int m = ck(o, "wsmp"); by_le32(o, 20); by_le16(o, w->unity); by_le16(o, w->fine); by_le32(o, (u32)w->gain); by_le32(o, 0); by_le32(o, w->loop ? 1 : 0);
    if (w->loop) { by_le32(o, 16); by_le32(o, 0); by_le32(o, (u32)w->ls); by_le32(o, (u32)w->ll); }
    ke(o, m);
}
const bytes *dls_cdl; int dls_cdl_at, dls_art2;
static void put_cdl(bytes *o, int at) { if (dls_cdl && dls_cdl_at == at) { int m = ck(o, "cdl "); by_put(o, dls_cdl->b, dls_cdl->n); ke(o, m); } }
static void put_art(bytes *o, const d_conn *c, int n, int at) {
    if (!n) return;
    int l = ls(o, dls_art2 & 1 ? "lar2" : "lart"); put_cdl(o, at); int m = ck(o, dls_art2 & 2 ? "art2" : "art1"); by_le32(o, 8); by_le32(o, (u32)n);
    for (int i = 0; i < n; i++) { by_le16(o, c[i].src); by_le16(o, c[i].ctl); by_le16(o, c[i].dst); by_le16(o, c[i].trn); by_le32(o, (u32)c[i].scale); }
    ke(o, m); ke(o, l);
}
void dls_build(bytes *o, const d_ins *ins, int ni, const d_wave *wv, int nw) {
    o->n = 0;
    int riff = ck(o, "RIFF"); by_put(o, "DLS ", 4);
    put_cdl(o, CDL_COLLECTION);
    int m = ck(o, "colh"); by_le32(o, (u32)ni); ke(o, m);
    int l = ls(o, "lins");
    for (int i = 0; i < ni; i++) {
        int li = ls(o, "ins ");
        m = ck(o, "insh"); by_le32(o, (u32)(ins[i].declared ? ins[i].declared : ins[i].nr)); by_le32(o, ins[i].bank); by_le32(o, ins[i].prog); ke(o, m);
        int lr = ls(o, "lrgn");
        for (int j = 0; j < ins[i].nr; j++) {
            const d_rgn *r = &ins[i].r[j];
            int lg = ls(o, r->rgn2 ? "rgn2" : "rgn ");
            if (r->cdl) put_cdl(o, CDL_REGION);
            m = ck(o, "rgnh"); by_le16(o, r->klo); by_le16(o, r->khi); by_le16(o, r->vlo); by_le16(o, r->vhi); by_le16(o, r->opts); by_le16(o, r->group); ke(o, m);
            put_wsmp(o, &r->w);
            m = ck(o, "wlnk"); by_le16(o, 0); by_le16(o, 0); by_le32(o, 1); by_le32(o, (u32)r->wave); ke(o, m);
            put_art(o, r->art, r->nart, r->cdl ? CDL_REGION_ART : -1);
            ke(o, lg);
        }
        ke(o, lr);
        put_art(o, ins[i].art, ins[i].nart, CDL_INS_ART);
        ke(o, li);
    }
    ke(o, l);
    /* offsets of the waves inside wvpl */
    m = ck(o, "ptbl"); by_le32(o, 8); by_le32(o, (u32)nw); int pt = o->n; for (int i = 0; i < nw; i++) by_le32(o, 0); ke(o, m);
    l = ls(o, "wvpl"); int base = o->n;
    for (int i = 0; i < nw; i++) {
        u32 off = (u32)(o->n - base); u8 *p = o->b + pt + 4 * i; p[0] = (u8)off; p[1] = (u8)(off >> 8); p[2] = (u8)(off >> 16); p[3] = (u8)(off >> 24);
        int lw = ls(o, "wave");
        m = ck(o, "fmt "); by_le16(o, 1); by_le16(o, 1); by_le32(o, (u32)wv[i].rate); by_le32(o, (u32)(wv[i].rate * wv[i].bits / 8)); by_le16(o, wv[i].bits / 8); by_le16(o, wv[i].bits); ke(o, m);
        put_wsmp(o, &wv[i].w);
        m = ck(o, "data"); by_put(o, wv[i].data, wv[i].bytes); ke(o, m);
        ke(o, lw);
    }
    ke(o, l);
    m = ls(o, "INFO"); int k = ck(o, "INAM"); by_put(o, "mc\0", 4); ke(o, k); ke(o, m);
    ke(o, riff);
}
/* destinations: EG1 attack 0x206, decay 0x207, release 0x209, sustain 0x20a; EG2 0x30a... */
const d_conn dls_flat[] = {
    { 0, 0, 0x206, 0, (int)0x80000000 },            /* EG1 attack: instantaneous */
    { 0, 0, 0x209, 0, (int)0x80000000 },            /* EG1 release: instantaneous */
    { 0, 0, 0x20a, 0, 1000 << 16 },                 /* EG1 sustain 100 % */
    { 0, 0, 0x20d, 0, (int)0x80000000 },            /* EG1 shutdown: instantaneous */
};
const int dls_nflat = sizeof dls_flat / sizeof dls_flat[0];

/* ---- instance ---- */
EAS_DATA_HANDLE E;
#define GUARD 64
static EAS_PCM PCMbuf[PCM_MAX + 2 * GUARD];
int FRAME;
EAS_PCM PCM[PCM_MAX];
__attribute__((constructor)) static void ctor(void) { mc_nohash(PCMbuf, sizeof PCMbuf); mc_nohash(PCM, sizeof PCM); }

void sut_init(void) {
    const S_EAS_LIB_CONFIG *c = EAS_Config();
    MC_CHECK(c && c->mixBufferSize > 0 && c->mixBufferSize * c->numChannels <= PCM_MAX, "config", "EAS_Config reports an unusable mix buffer size");
    FRAME = (int)c->mixBufferSize;
    EAS_RESULT r = EAS_Init(&E);
    MC_CHECK(r == EAS_SUCCESS && E, "init", "EAS_Init returned %ld", (long)r);
}
void sut_dry(void) {
    MC_CHECK(EAS_SetParameter(E, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_TRUE) == EAS_SUCCESS, "dry", "reverb bypass refused");
    MC_CHECK(EAS_SetParameter(E, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, EAS_TRUE) == EAS_SUCCESS, "dry", "chorus bypass refused");
}
void sut_render(void) {
    EAS_I32 got = -1;
    for (int i = 0; i < GUARD; i++) PCMbuf[i] = PCMbuf[GUARD + FRAME * 2 + i] = (EAS_PCM)0x5a5a;
    EAS_RESULT r = EAS_Render(E, PCMbuf + GUARD, FRAME, &got);
    MC_CHECK(r == EAS_SUCCESS, "render-result", "EAS_Render returned %ld", (long)r);
    MC_CHECK(got == FRAME, "render-count", "EAS_Render produced %ld of %d samples", (long)got, FRAME);
    for (int i = 0; i < GUARD; i++) MC_CHECK(PCMbuf[i] == 0x5a5a && PCMbuf[GUARD + FRAME * 2 + i] == 0x5a5a, "render-overrun", "EAS_Render wrote outside the frame");
    memcpy(PCM, PCMbuf + GUARD, sizeof(EAS_PCM) * 2 * (size_t)FRAME);
    mc_step(1);
}
u64 sut_render_hash(u64 h) { sut_render(); return mc_hash(PCM, sizeof(EAS_PCM) * 2 * (size_t)FRAME, h); }
int pcm_silent(void) { for (int i = 0; i < FRAME * 2; i++) if (PCM[i]) return 0; return 1; }
EAS_FILE *sut_file(EAS_FILE *f, mc_file *m, const u8 *d, int n) { m->data = d; m->len = n; f->handle = m; f->readAt = mc_readAt; f->size = mc_sizeOf; return f; }
EAS_HANDLE sut_open(EAS_FILE *f) {
    EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenFile(E, f, &h);
    MC_CHECK(r == EAS_SUCCESS && h, "open", "EAS_OpenFile returned %ld", (long)r);
    r = EAS_Prepare(E, h); MC_CHECK(r == EAS_SUCCESS, "prepare", "EAS_Prepare returned %ld", (long)r);
    return h;
}
EAS_HANDLE sut_midi(void) { EAS_HANDLE h = NULL; EAS_RESULT r = EAS_OpenMIDIStream(E, &h, NULL); MC_CHECK(r == EAS_SUCCESS && h, "open-midi", "EAS_OpenMIDIStream returned %ld", (long)r); return h; }
void sut_write(EAS_HANDLE h, const u8 *p, int n) { u8 t[512]; if (n > 512) n = 512; memcpy(t, p, (size_t)n); EAS_RESULT r = EAS_WriteMIDIStream(E, h, t, n); MC_CHECK(r == EAS_SUCCESS, "write-midi", "EAS_WriteMIDIStream(%s) returned %ld", hex(p, n), (long)r); mc_step(1); }
void sut_w3(EAS_HANDLE h, int a, int b, int c) { u8 t[3] = { (u8)a, (u8)b, (u8)c }; sut_write(h, t, 3); }
void sut_w2(EAS_HANDLE h, int a, int b) { u8 t[2] = { (u8)a, (u8)b }; sut_write(h, t, 2); }
const char *hex(const u8 *p, int n) { static char b[700]; int o = 0; b[0] = 0; for (int i = 0; i < n && o < 690; i++) o += snprintf(b + o, sizeof b - (size_t)o, "%s%02x", i ? " " : "", p[i]); return b; }

/* ---- banks of constant-level waves ---- */
void dc_bank(bytes *o, const dc_note *t, int n, const d_conn *art, int nart) {
    static d_rgn r[128]; static d_wave w[128]; static d_ins in[64]; static short smp[128][66]; int ni = 0;
    MC_CHECK(n <= 128, "harness", "dc_bank");
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < 66; j++) smp[i][j] = (short)t[i].level;
        w[i] = (d_wave){ 16, 44100, smp[i], 66 * 2, { 1, t[i].klo, 0, 0, 1, 32, 32 } };
        r[i] = (d_rgn){ .klo = t[i].klo, .khi = t[i].khi, .vlo = 0, .vhi = 127, .wave = i, .group = t[i].group, .opts = t[i].opts };
        if (!i || t[i].bank != t[i - 1].bank || t[i].prog != t[i - 1].prog) { in[ni++] = (d_ins){ .bank = t[i].bank, .prog = t[i].prog, .r = &r[i], .nr = 0, .art = art, .nart = nart }; }
        in[ni - 1].nr++;
    }
    dls_build(o, in, ni, w, n);
}
void sut_dls(EAS_HANDLE h, const bytes *d) {
    static EAS_FILE f; static mc_file m;
    EAS_RESULT r = EAS_LoadDLSCollection(E, h, sut_file(&f, &m, d->b, d->n));
    MC_CHECK(r == EAS_SUCCESS, "load-dls", "EAS_LoadDLSCollection of a well-formed collection returned %ld", (long)r);
}
int sut_last(int right) { return PCM[2 * (FRAME - 1) + (right ? 1 : 0)]; }
