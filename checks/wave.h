/* builders of WAVE files */
#ifndef WAVE_H
#define WAVE_H
#include "sut.h"
static const int ima_step_[89] = { 7,8,9,10,11,12,13,14,16,17,19,21,23,25,28,31,34,37,41,45,50,55,60,66,73,80,88,97,107,118,130,143,157,173,190,209,230,253,279,307,337,371,408,449,494,544,598,658,724,796,876,963,1060,1166,1282,1411,1552,1707,1878,2066,2272,2499,2749,3024,3327,3660,4026,4428,4871,5358,5894,6484,7132,7845,8630,9493,10442,11487,12635,13899,15289,16818,18500,20350,22385,24623,27086,29794,32767 };
static const int ima_index_[8] = { -1, -1, -1, -1, 2, 4, 6, 8 };
/* one step of the decoder, as the IMA defines it */
static int ima_next(int *pred, int *idx, int nib) {
    int s = ima_step_[*idx], d = s >> 3; if (nib & 4) d += s; if (nib & 2) d += s >> 1; if (nib & 1) d += s >> 2; *pred += nib & 8 ? -d : d; if (*pred > 32767) *pred = 32767; if (*pred < -32768) *pred = -32768;
    *idx += ima_index_[nib & 7]; if (*idx < 0) *idx = 0; if (*idx > 88) *idx = 88; return *pred;
}
static void wchunk(bytes *o, const char *tag, const void *d, int n) { by_put(o, tag, 4); by_le32(o, (u32)n); by_put(o, d, n); if (n & 1) by_u8(o, 0); }
static void wfmt(bytes *o, int ima, int ch, int rate, int bits, int block) { bytes f = {0}; by_le16(&f, ima ? 0x11 : 1); by_le16(&f, ch); by_le32(&f, (u32)rate); by_le32(&f, ima ? (u32)((long)rate * block / (block * 2 - 7)) : (u32)rate * (u32)(ch * bits / 8)); by_le16(&f, ima ? block : ch * bits / 8); by_le16(&f, bits); if (ima) { by_le16(&f, 2); by_le16(&f, block * 2 - 7); } wchunk(o, "fmt ", f.b, f.n); by_free(&f); }
static void winfo(bytes *o, int k) { bytes l = {0}; by_put(&l, "INFO", 4); wchunk(&l, "INAM", k ? "Tune\0" : "Odd", k ? 5 : 3); wchunk(&l, "ISFT", "x", 1); wchunk(&l, "IART", "Somebody", 8); wchunk(&l, "ICOP", "1999\0", 5); wchunk(o, "LIST", l.b, l.n); by_free(&l); }
static void wbegin(bytes *o) { o->n = 0; by_put(o, "RIFF\0\0\0\0WAVE", 12); }
static void wend(bytes *o) { u32 n = (u32)o->n - 8; for (int k = 0; k < 4; k++) o->b[4 + k] = (u8)(n >> 8 * k); }
#endif
