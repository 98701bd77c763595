/* helpers to drive the library through its public interface, and builders of input files */
#ifndef SUT_H
#define SUT_H
#include "mc.h"
#include "eas.h"
#include "eas_types.h"
#include "eas_reverb.h"
#include "eas_chorus.h"

/* growing byte buffer outside the state */
typedef struct { u8 *b; int n, cap; } bytes;
void by_put(bytes *o, const void *p, int n);
void by_u8(bytes *o, int v);
void by_le16(bytes *o, int v); void by_le32(bytes *o, u32 v);
void by_be16(bytes *o, int v); void by_be32(bytes *o, u32 v);
void by_vlq(bytes *o, u32 v);
void by_free(bytes *o);

/* standard MIDI files */
void smf_head(bytes *o, int format, int ntrk, int division);
int  smf_trk(bytes *o);                 /* returns the mark for smf_endtrk */
void smf_ev(bytes *o, u32 delta, const u8 *p, int n);
void smf_ev3(bytes *o, u32 delta, int a, int b, int c);
void smf_ev2(bytes *o, u32 delta, int a, int b);
void smf_meta(bytes *o, u32 delta, int type, const void *p, int n);
void smf_tempo(bytes *o, u32 delta, u32 usPerQ);
void smf_eot(bytes *o, u32 delta);
void smf_endtrk(bytes *o, int mark);

/* DLS collections */
typedef struct { u16 src, ctl, dst, trn; int scale; } d_conn;
typedef struct { int use, unity, fine, gain, loop, ls, ll; } d_wsmp;
typedef struct { int klo, khi, vlo, vhi, opts, group, wave; d_wsmp w; const d_conn *art; int nart; int rgn2, cdl; } d_rgn;    /* cdl: takes the condition */
typedef struct { u32 bank, prog; const d_rgn *r; int nr; const d_conn *art; int nart; int declared; } d_ins;   /* declared: region count in insh if >0 */
typedef struct { int bits, rate; const void *data; int bytes; d_wsmp w; } d_wave;
void dls_build(bytes *o, const d_ins *ins, int ni, const d_wave *wv, int nw);
/* condition (content of a cdl chunk) and where dls_build puts it; form of articulations: 1 lar2, 2 art2 */
enum { CDL_COLLECTION, CDL_REGION, CDL_REGION_ART, CDL_INS_ART };
extern const bytes *dls_cdl; extern int dls_cdl_at, dls_art2;
/* articulation that makes a wave sound at constant full level while the key is held and stop at release */
extern const d_conn dls_flat[]; extern const int dls_nflat;

/* instance helpers; all of them mc_fail on unexpected results */
extern EAS_DATA_HANDLE E;
extern EAS_PCM PCM[];                /* last rendered frame, with guards */
#define PCM_MAX (256*2)
extern int FRAME;                    /* samples per frame (from EAS_Config) */
void sut_init(void);                 /* EAS_Init */
void sut_dry(void);                  /* reverb and chorus bypassed */
void sut_render(void);               /* one frame into PCM; checks the render contract */
u64  sut_render_hash(u64 h);         /* one frame, folded into h */
int  pcm_silent(void);
EAS_FILE *sut_file(EAS_FILE *f, mc_file *m, const u8 *d, int n);
EAS_HANDLE sut_open(EAS_FILE *f);    /* open + prepare */
EAS_HANDLE sut_midi(void);           /* EAS_OpenMIDIStream(NULL) */
void sut_write(EAS_HANDLE h, const u8 *p, int n);
void sut_w3(EAS_HANDLE h, int a, int b, int c);
void sut_w2(EAS_HANDLE h, int a, int b);
const char *hex(const u8 *p, int n);  /* static buffer */

/* A bank of constant-level looped waves: each entry is one region; entries of one instrument must be adjacent.
 * A sounding note adds a constant to the output, so the set of sounding notes can be read off the last sample
 * of a frame (gains are ramped inside a frame and have reached their target there). */
typedef struct { u32 bank; int prog, klo, khi, level, group, opts; } dc_note;
void dc_bank(bytes *o, const dc_note *t, int n, const d_conn *art, int nart);
void sut_dls(EAS_HANDLE h, const bytes *d);   /* h NULL: globally */
int  sut_last(int right);                     /* last sample of the frame rendered last */
#endif
