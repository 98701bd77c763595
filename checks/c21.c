/* C21: streams do not disturb each other.  Stream A plays a fixed script; stream B, which uses silent instruments only,
 * gets every sequence of operations.  What is heard must be what A alone sounds like, bit for bit. */
#include "sut.h"
const char mc_property[] = "C21";
#define LEN 26
static u64 *ref; static bytes bank, bankB, fileA, fileB; static int kindA, kindB, firstB;
static struct { EAS_HANDLE A, B, L; int frame, heldB; EAS_STATE sA; } S;
static EAS_FILE fa, fb, fd; static mc_file ma, mb, md;
static const u8 GMON[] = { 0xf0, 0x7e, 0x7f, 9, 1, 0xf7 }, MVOL[] = { 0xf0, 0x7f, 0x7f, 4, 1, 0, 0x20, 0xf7 }, MIP[] = { 0xf0, 0x7f, 0x7f, 0x0b, 1, 0, 1, 9, 2, 1, 2, 0xf7 };
/* the script of A: what happens before frame f */
typedef struct { u8 frame, n, b[3]; } sc;
static const sc SCRIPT[] = { { 0, 2, { 0xc0, 1 } }, { 0, 2, { 0xc1, 2 } }, { 1, 3, { 0x90, 60, 100 } }, { 1, 3, { 0x90, 105, 99 } }, { 1, 3, { 0x80, 105, 0 } }, { 2, 3, { 0x90, 70, 80 } }, { 2, 3, { 0x80, 70, 0 } }, { 2, 3, { 0xb0, 64, 127 } }, { 2, 3, { 0x99, 36, 100 } }, { 3, 3, { 0x91, 62, 90 } }, { 4, 3, { 0x80, 60, 0 } }, { 5, 3, { 0xb1, 7, 80 } },
    { 6, 3, { 0xe1, 0, 90 } }, { 7, 3, { 0x90, 64, 60 } }, { 8, 3, { 0x90, 105, 100 } }, { 8, 3, { 0x80, 105, 0 } }, { 8, 3, { 0x91, 65, 100 } }, { 8, 3, { 0x81, 65, 0 } }, { 10, 3, { 0xb0, 64, 0 } }, { 10, 3, { 0x81, 62, 0 } }, { 11, 3, { 0x90, 60, 100 } }, { 12, 3, { 0xb0, 10, 20 } }, { 13, 3, { 0x91, 67, 100 } }, { 14, 3, { 0xb1, 11, 60 } }, { 14, 3, { 0x99, 37, 90 } },
    { 15, 3, { 0x80, 60, 0 } }, { 17, 3, { 0x99, 40, 100 } }, { 18, 3, { 0x90, 105, 90 } }, { 18, 3, { 0x80, 105, 0 } }, { 19, 3, { 0x90, 66, 127 } }, { 20, 3, { 0x81, 67, 0 } }, { 22, 3, { 0x80, 66, 0 } } };
static EAS_RESULT closeA(void) { return kindA ? EAS_CloseMIDIStream(E, S.A) : EAS_CloseFile(E, S.A); }
static EAS_RESULT closeB(void) { if (kindB == 2) EAS_CloseMIDIStream(E, S.L); return kindB == 1 ? EAS_CloseMIDIStream(E, S.B) : EAS_CloseFile(E, S.B); }
static void frame(int check) {
    if (kindA) for (u32 i = 0; i < sizeof SCRIPT / sizeof *SCRIPT; i++) if (SCRIPT[i].frame == S.frame) sut_write(S.A, SCRIPT[i].b, SCRIPT[i].n);
    u64 h = sut_render_hash(7);
    if (check) {
        MC_CHECK(h == ref[S.frame], "disturbed", "frame %d of stream A does not sound as it does alone", S.frame);
        EAS_STATE st = -1; EAS_State(E, S.A, &st);
        MC_CHECK(st != EAS_STATE_ERROR, "state", "stream A is in an error state");
        EAS_I32 t = -1; EAS_GetLocation(E, S.A, &t); if ((u64)t != ref[LEN + S.frame]) mc_fail("location", "frame %d: stream A is at %ld ms, alone it is at %ld ms", S.frame, (long)t, (long)ref[LEN + S.frame]);
    } else { EAS_I32 t = -1; EAS_GetLocation(E, S.A, &t); ref[S.frame] = h; ref[LEN + S.frame] = (u64)t; }
    S.frame++;
}
static void openB(void) {
    if (kindB == 1) S.B = S.L = sut_midi(); else { S.B = sut_open(sut_file(&fb, &mb, fileB.b, fileB.n)); if (kindB == 2) { EAS_RESULT r = EAS_OpenMIDIStream(E, &S.L, S.B); MC_CHECK(r == EAS_SUCCESS, "open", "EAS_OpenMIDIStream on a file returned %ld", (long)r); } }
}
static void setup0(int withB) {
    memset(&S, 0, sizeof S);
    sut_init(); sut_dry(); sut_dls(NULL, &bank);
    if (withB && firstB) openB();
    S.A = kindA ? sut_midi() : sut_open(sut_file(&fa, &ma, fileA.b, fileA.n));
}
static int slotA = -1, slotB;
static void setup(void) {
    if (slotA < 0) { setup0(1); if (!firstB) openB(); return; }
    memset(&S, 0, sizeof S); sut_init(); sut_dry(); sut_dls(NULL, &bank);
    for (int k = 0; k < (kindB == 2 ? 3 : 4); k++) if (k == slotA) S.A = kindA ? sut_midi() : sut_open(sut_file(&fa, &ma, fileA.b, fileA.n)); else if (k == slotB) openB(); else sut_midi();      /* the others stay idle */
}
enum { R1, R4, OPENCLOSE, VOL0, VOL50, POLY1, POLY0, PRIO, TRANSP, APAUSE, ARESUME, LOC, LOC2, RATE, REPEAT, LENGTH, LOADLDLS, FIRSTLIVE, ON0 = FIRSTLIVE, ON2, ON10, OFF0, PED1, PED0, CC120, CC121, CC123, GM, MV, MIPM, BEND, CCVOL, PART, NOPS };
static const char *opname(int o) {
    static const char *N[] = { "render", "render 4", "open/close B", "volume(B) 0", "volume(B) 50", "polyphony(B) 1", "polyphony(B) 0", "priority(B) 14", "transpose(B) 5", "pause B", "resume B", "locate(B) 80", "locate(B) 5", "rate(B) 2", "repeat(B) 2", "length of B", "load DLS for B",
        "B: note on ch0", "B: note on ch1", "B: drum note", "B: note off ch0", "B: pedal down ch0", "B: pedal up ch0", "B: all sound off ch0", "B: reset controllers ch0", "B: all notes off ch1", "B: GM on", "B: master volume", "B: MIP", "B: bend ch0", "B: volume ch0", "B: half a message" };
    return N[o];
}
static int enabled(int o, int at) {
    (void)at;
    if (S.frame + 1 > LEN || (o == R4 && S.frame + 4 > LEN)) return 0;
    if (o == R1 || o == R4 || o == OPENCLOSE) return 1;
    if (!S.B) return 0;
    if (o >= FIRSTLIVE) return kindB;
    if (o == LOADLDLS) return 1;
    if (o >= APAUSE) return kindB != 1;
    return 1;
}
static void apply(int o) {
    EAS_HANDLE B = o >= FIRSTLIVE ? S.L : S.B; EAS_I32 x;
    switch (o) {
    case R1: frame(1); break; case R4: for (int i = 0; i < 4; i++) frame(1); break;
    case OPENCLOSE: if (B) { EAS_RESULT r = closeB(); MC_CHECK(r == EAS_SUCCESS, "close", "closing B returned %ld", (long)r); S.B = NULL; } else openB(); break;
    case VOL0: EAS_SetVolume(E, B, 0); break; case VOL50: EAS_SetVolume(E, B, 50); break;
    case POLY1: EAS_SetPolyphony(E, B, 1); break; case POLY0: EAS_SetPolyphony(E, B, 0); break; case PRIO: EAS_SetPriority(E, B, 14); break;
    case TRANSP: EAS_SetTransposition(E, B, 5); break;
    case APAUSE: EAS_Pause(E, B); break; case ARESUME: EAS_Resume(E, B); break;
    case LOC: EAS_Locate(E, B, 80, EAS_FALSE); break; case LOC2: EAS_Locate(E, B, 5, EAS_FALSE); break;
    case RATE: EAS_SetPlaybackRate(E, B, 1 << 29); break; case REPEAT: EAS_SetRepeat(E, B, 2); break; case LENGTH: EAS_ParseMetaData(E, B, &x); break;
    case LOADLDLS: EAS_LoadDLSCollection(E, B, sut_file(&fd, &md, bankB.b, bankB.n)); break;
    case ON0: sut_w3(B, 0x90, 60, 127); break; case ON2: sut_w3(B, 0x91, 62, 127); break; case ON10: sut_w3(B, 0x99, 40, 127); break;
    case OFF0: sut_w3(B, 0x80, 60, 0); break; case PED1: sut_w3(B, 0xb0, 64, 127); break; case PED0: sut_w3(B, 0xb0, 64, 0); break;
    case CC120: sut_w3(B, 0xb0, 120, 0); break; case CC121: sut_w3(B, 0xb0, 121, 0); break; case CC123: sut_w3(B, 0xb1, 123, 0); break;
    case GM: sut_write(B, GMON, sizeof GMON); break; case MV: sut_write(B, MVOL, sizeof MVOL); break; case MIPM: sut_write(B, MIP, sizeof MIP); break;
    case BEND: sut_w3(B, 0xe0, 0, 127); break; case CCVOL: sut_w3(B, 0xb0, 7, 10); break; case PART: sut_w2(B, 0x91, 60); break;
    }
}
static void leaf(void) {
    while (S.frame < LEN) frame(1);
    EAS_RESULT r = closeA(); MC_CHECK(r == EAS_SUCCESS, "close", "closing A returned %ld", (long)r);
    if (S.B) { r = closeB(); MC_CHECK(r == EAS_SUCCESS, "close", "closing B returned %ld", (long)r); }
}
void mc_body(void) {
    static const dc_note t[] = { { 0, 0, 0, 127, 0 }, { 0, 1, 0, 127, 700 }, { 0, 2, 0, 127, 1500 }, { 0, 3, 0, 127, 0 },
        { 0x80000000, 0, 36, 36, 900, 1 }, { 0x80000000, 0, 37, 37, 500, 1 }, { 0x80000000, 0, 38, 127, 0, 1 } };   /* drums of one key group: A's sound, B's do not */
    dc_bank(&bank, t, 7, dls_flat, dls_nflat);
    static const dc_note tb[] = { { 0, 0, 0, 127, 0 }, { 0x80000000, 0, 0, 127, 0 } }; dc_bank(&bankB, tb, 2, dls_flat, dls_nflat);
    /* A as a file: 500 us per tick, a frame is 5.8 ms */
    smf_head(&fileA, 0, 1, 1000); int m = smf_trk(&fileA); u32 last = 0;
    for (u32 i = 0; i < sizeof SCRIPT / sizeof *SCRIPT; i++) { u32 tk = (u32)(SCRIPT[i].frame * 11.61) + 1; if (SCRIPT[i].n == 2) smf_ev2(&fileA, tk - last, SCRIPT[i].b[0], SCRIPT[i].b[1]); else smf_ev3(&fileA, tk - last, SCRIPT[i].b[0], SCRIPT[i].b[1], SCRIPT[i].b[2]); last = tk; }
    smf_eot(&fileA, 60); smf_endtrk(&fileA, m);
    smf_head(&fileB, 1, 2, 500); m = smf_trk(&fileB); smf_tempo(&fileB, 0, 250000); smf_ev3(&fileB, 5, 0x90, 60, 127); smf_ev3(&fileB, 10, 0xb0, 64, 127); smf_ev3(&fileB, 20, 0x80, 60, 0); smf_ev3(&fileB, 80, 0x91, 50, 100); smf_ev3(&fileB, 20, 0xb0, 120, 0);
    smf_ev3(&fileB, 10, 0xb0, 7, 3); smf_eot(&fileB, 20); smf_endtrk(&fileB, m);
    m = smf_trk(&fileB); u8 sx[16]; sx[0] = 0xf0; sx[1] = 5; memcpy(sx + 2, GMON + 1, 5); smf_ev(&fileB, 40, sx, 7); sx[1] = 7; memcpy(sx + 2, MVOL + 1, 7); smf_ev(&fileB, 30, sx, 9); sx[1] = 11; memcpy(sx + 2, MIP + 1, 11); smf_ev(&fileB, 20, sx, 13);
    smf_ev3(&fileB, 10, 0x99, 40, 100); smf_ev3(&fileB, 1, 0xe9, 0, 0); smf_eot(&fileB, 70); smf_endtrk(&fileB, m);
    ref = mc_big(sizeof(u64) * 2 * LEN); int d = mc_thorough ? 6 : 5;
    mc_bound("A live or file, B live or file, either opened first: every sequence of up to %d of 31 operations on B and renders (%d if B opens second or is a file with a live stream), then A's script of %d frames to its end", d, d - 1, LEN);
    for (int k = 0; k < 6; k++) {
        kindA = k & 1; kindB = k >> 1;
        for (firstB = 0; firstB < 2; firstB++) {
            u64 *r = ref; mc_snap *s = mc_save(NULL); setup0(0); while (S.frame < LEN) frame(0); mc_restore(s); ref = r; mc_snap_free(s);
            static const char *nm[] = { "A file, B file", "A live, B file", "A file, B live", "A live, B live", "A file, B file with live stream", "A live, B file with live stream" };
            char name[80]; snprintf(name, sizeof name, "%s%s", nm[k], firstB ? ", B opened first" : "");
            mc_model x = { .name = name, .nops = NOPS, .depth = firstB || kindB == 2 ? d - 1 : d, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
            mc_explore(&x);
        }
    }
    /* every pair of places for the two among four */
    mc_bound("A and B in every two of the four places for streams, the others idle: every sequence of up to %d operations", d - 2);
    for (int k = 0; k < 6; k++) {
        kindA = k & 1; kindB = k >> 1; slotA = -1; firstB = 0;
        u64 *r = ref; mc_snap *s = mc_save(NULL); setup0(0); while (S.frame < LEN) frame(0); mc_restore(s); ref = r; mc_snap_free(s);
        for (slotA = 0; slotA < 4; slotA++) for (slotB = 0; slotB < 4; slotB++) {
            if (slotA == slotB || (kindB == 2 && (slotA == 3 || slotB == 3))) continue;
            char name[80]; snprintf(name, sizeof name, "kind %d, places %d and %d", k, slotA, slotB);
            mc_model x = { .name = name, .nops = NOPS, .depth = d - 2, .setup = setup, .enabled = enabled, .apply = apply, .leaf = leaf, .opname = opname, .dedupe = 1 };
            mc_explore(&x);
        }
    }
}
