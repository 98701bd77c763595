From 991aa1b63a7a76d6db1331d54d333a329363856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/89] fix: Reset All Controllers releases the notes the
 sustain pedal was holding

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..09fa5bb 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2334,7 +2334,9 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->modWheel = DEFAULT_MOD_WHEEL;
         pChannel->expression = DEFAULT_EXPRESSION;
 
-        /* turn the sustain pedal off as default/reset */
+        /* turn the sustain pedal off as default/reset, and let go of the notes it was holding */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From 27587465921369368f195ef0a02f131c7ec05b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 02/89] fix: file stream calls on an interactive MIDI stream
 fail instead of dereferencing NULL

---
 arm-wt-22k/lib_src/eas_public.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..303c9b0 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -103,7 +103,7 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfSetData)
+    if (pParserModule && pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -125,7 +125,7 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfGetData)
+    if (pParserModule && pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -146,6 +146,8 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     EAS_STATE state;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_FALSE;
     if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
-- 
2.43.0


From 6e7e85bac8340b9deea4e3042fccdfe143fd36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 03/89] fix: opening a MIDI stream on a stream without a
 synthesizer fails cleanly

---
 arm-wt-22k/lib_src/eas_public.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 303c9b0..9a59057 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1566,10 +1566,15 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     /* use an existing synthesizer */
     else
     {
-        EAS_I32 value;
+        EAS_I32 value = 0;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+        if ((result == EAS_SUCCESS) && (value == 0))
+            result = EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+            VMIncRefCount(pMIDIStream->pSynth);
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From cdfbff4bb4241bd4ea60defc7042fe3c143ef886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/89] fix: EAS_Shutdown frees interactive MIDI streams that
 are still open

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 9a59057..972d4e3 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -492,6 +492,10 @@ EAS_PUBLIC EAS_RESULT EAS_Shutdown (EAS_DATA_HANDLE pEASData)
                 reportResult = result;
             }
         }
+
+        /* interactive MIDI streams have no parser module */
+        else if (pEASData->streams[i].handle)
+            EAS_CloseMIDIStream(pEASData, &pEASData->streams[i]);
     }
 
     /* shutdown PCM engine */
-- 
2.43.0


From 32d7d30d0c1dbc80d2f2ebb4f205c8631423aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 05/89] fix: pause and resume requests take effect in builds
 without the JET interface

---
 arm-wt-22k/lib_src/eas_public.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 972d4e3..c1183af 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -920,7 +920,6 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
             /* establish pointer to parser module */
             pParserModule = pEASData->streams[streamNum].pParserModule;
 
-#ifdef JET_INTERFACE
             /* handle pause */
             if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PAUSE)
             {
@@ -928,13 +927,11 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                     result = pParserModule->pfPause(pEASData, pEASData->streams[streamNum].handle);
                 pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_PAUSE;
             }
-#endif
 
             /* get current state */
             if ((result = (*pParserModule->pfState)(pEASData, pEASData->streams[streamNum].handle, &parserState)) != EAS_SUCCESS)
                 return result;
 
-#ifdef JET_INTERFACE
             /* handle resume */
             if (parserState == EAS_STATE_PAUSED)
             {
@@ -945,7 +942,6 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                     pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;
                 }
             }
-#endif
 
             /* if necessary, parse stream */
             if ((pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PARSED) == 0)
-- 
2.43.0


From 553e30fb643d4fbd2a20dbeeae49966177bda393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 06/89] fix: a frame whose events exceeded the work load is not
 rendered half parsed

---
 arm-wt-22k/lib_src/eas_public.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index c1183af..70f9c1f 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -949,7 +949,7 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                     return result;
 
             /* check for an early abort */
-            if ((pEASData->streams[streamNum].streamFlags) == 0)
+            if ((pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_PARSED) == 0)
             {
 
 #ifdef _METRICS_ENABLED
-- 
2.43.0


From 7df8956c6b0a6f61ad53f90de66520703c792883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 07/89] fix: EAS_GetParameter and EAS_SetParameter reject
 negative module numbers

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 70f9c1f..396c078 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2271,7 +2271,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2306,7 +2306,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From 9761525bb755233f1b157f95b3f040ff4e6a0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 08/89] fix: rewinding a MIDI file restores the initial tempo,
 first delta time and setup bar state

---
 arm-wt-22k/lib_src/eas_midi.c |  1 +
 arm-wt-22k/lib_src/eas_smf.c  | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..4116981 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -93,6 +93,7 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
     pMIDIStream->pending = EAS_FALSE;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->flags = 0;
 }
 
 /*----------------------------------------------------------------------------
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..e86e8f0 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -61,6 +61,7 @@ static EAS_RESULT SMF_ParseSysEx (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_
 static EAS_RESULT SMF_ParseEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_SMF_STREAM *pSMFStream, EAS_INT parserMode);
 static EAS_RESULT SMF_GetDeltaTime (EAS_HW_DATA_HANDLE hwInstData, S_SMF_STREAM *pSMFStream);
 static void SMF_UpdateTime (S_SMF_DATA *pSMFData, EAS_U32 ticks);
+static void SMF_SetDefaultTempo (S_SMF_DATA *pSMFData);
 
 
 /*----------------------------------------------------------------------------
@@ -488,8 +489,10 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     pSMFData = (S_SMF_DATA*) pInstData;
 
-    /* reset time to zero */
+    /* reset time and tempo, and look for the setup bar again */
     pSMFData->time = 0;
+    pSMFData->flags &= ~(SMF_FLAGS_SETUP_BAR | SMF_FLAGS_CHASE_MODE);
+    SMF_SetDefaultTempo(pSMFData);
 
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
@@ -520,6 +523,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* update the time of the next event */
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
@@ -1130,7 +1136,7 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    SMF_SetDefaultTempo(pSMFData);
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
@@ -1254,3 +1260,17 @@ static void SMF_UpdateTime (S_SMF_DATA *pSMFData, EAS_U32 ticks)
     pSMFData->time += (EAS_I32)((temp1 << 8) + (temp2 >> 2));
 }
 
+/*----------------------------------------------------------------------------
+ * SMF_SetDefaultTempo()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Sets the tempo that applies until the first tempo event
+ *----------------------------------------------------------------------------
+*/
+static void SMF_SetDefaultTempo (S_SMF_DATA *pSMFData)
+{
+    EAS_U32 temp;
+
+    temp = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
+    pSMFData->tickConv = (EAS_U16) ((temp > 65535) ? 65535 : temp);
+}
-- 
2.43.0


From 98ecd2c125158733ffa60d2dee17ffb3bf24410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 09/89] fix: a MIDI file whose header could not be parsed
 cannot be prepared again

---
 arm-wt-22k/lib_src/eas_smf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index e86e8f0..2950936 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -195,7 +195,11 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        /* the tracks are only partly set up, the stream can only be closed */
+        pSMFData->state = EAS_STATE_ERROR;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From b66dffa7dedeb2fbeea5c62aa9706347ec4e2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 10/89] fix: running out of memory while opening a MIDI file no
 longer crashes

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 2950936..e4279cf 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -142,10 +142,10 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
-        EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
         return EAS_ERROR_MALLOC_FAILED;
+    EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
 
     /* initialize some critical data */
     pSMFData->fileHandle = fileHandle;
-- 
2.43.0


From 7df0d3a23e64827425155305562c018f567f6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 11/89] fix: looped waves play the last sample of their loop

WT_Interpolate wrapped as soon as the second interpolation point reached the
end of the loop, so it played the sample before loopStart instead of the last
sample of the loop, and read in front of the wave when loopStart is 0.
---
 arm-wt-22k/lib_src/eas_wtengine.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index dc8d864..df26807 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -190,6 +190,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     EAS_I32 acc0;
     const EAS_SAMPLE *pSamples;
     const EAS_SAMPLE *loopEnd;
+    const EAS_SAMPLE *pNext;
     EAS_I32 samp1;
     EAS_I32 samp2;
     EAS_I32 numSamples;
@@ -213,15 +214,16 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     phaseFrac = pWTVoice->phaseFrac & PHASE_FRAC_MASK;
     phaseInc = pWTIntFrame->frame.phaseIncrement;
 
-    /* fetch adjacent samples */
+    /* fetch adjacent samples, the one after the last of the loop is the first of the loop */
+    pNext = (&pSamples[1] >= loopEnd) ? (const EAS_SAMPLE*)pWTVoice->loopStart : &pSamples[1];
 #if defined(_8_BIT_SAMPLES)
     /*lint -e{701} <avoid multiply for performance>*/
     samp1 = pSamples[0] << 8;
     /*lint -e{701} <avoid multiply for performance>*/
-    samp2 = pSamples[1] << 8;
+    samp2 = *pNext << 8;
 #else
     samp1 = pSamples[0];
-    samp2 = pSamples[1];
+    samp2 = *pNext;
 #endif
 
     while (numSamples--) {
@@ -249,21 +251,21 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             pSamples +=  nextSamplePhaseInc;
             phaseFrac = phaseFrac & PHASE_FRAC_MASK;
 
-            /* decrementing pSamples by entire buffer length until second pSample is within */
-            /* loopEnd                                                                      */
-            while (&pSamples[1] >= loopEnd) {
+            /* decrementing pSamples by entire loop length until it is within the loop */
+            while (pSamples >= loopEnd) {
                 pSamples -= (loopEnd - (const EAS_SAMPLE*)pWTVoice->loopStart);
             }
 
-            /* fetch new samples */
+            /* fetch new samples, the one after the last of the loop is the first of the loop */
+            pNext = (&pSamples[1] >= loopEnd) ? (const EAS_SAMPLE*)pWTVoice->loopStart : &pSamples[1];
 #if defined(_8_BIT_SAMPLES)
             /*lint -e{701} <avoid multiply for performance>*/
             samp1 = pSamples[0] << 8;
             /*lint -e{701} <avoid multiply for performance>*/
-            samp2 = pSamples[1] << 8;
+            samp2 = *pNext << 8;
 #else
             samp1 = pSamples[0];
-            samp2 = pSamples[1];
+            samp2 = *pNext;
 #endif
         }
     }
-- 
2.43.0


From 29425881f4d30f891d63508befd8c75cfa5bd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 12/89] fix: 16-bit DLS waves are not corrupted by the copy of
 the loop point

Loop points count samples and pSample is a 16-bit pointer, so halving the
indices overwrote a sample in the middle of the wave.
---
 arm-wt-22k/lib_src/eas_mdls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..7874d07 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1378,7 +1378,7 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             return EAS_FAILURE;
         }
 
-        pSample[(pWsmp->loopStart + pWsmp->loopLength)>>1] = pSample[(pWsmp->loopStart)>>1];
+        pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
-- 
2.43.0


From 41f255eb1e83d899b98261b0b3f761abada128fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 13/89] fix: a note does not inherit the fractional phase of
 the previous note of its voice

---
 arm-wt-22k/lib_src/eas_dlssynth.c | 1 +
 arm-wt-22k/lib_src/eas_wtsynth.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_dlssynth.c b/arm-wt-22k/lib_src/eas_dlssynth.c
index a07262c..bb101ce 100644
--- a/arm-wt-22k/lib_src/eas_dlssynth.c
+++ b/arm-wt-22k/lib_src/eas_dlssynth.c
@@ -345,6 +345,7 @@ EAS_RESULT DLS_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOIC
     pWTVoice->filter.z2 = 0;
 
     /* initialize the oscillator */
+    pWTVoice->phaseFrac = DEFAULT_PHASE_FRAC;
     pWTVoice->phaseAccum = (EAS_U32) pSynth->pDLS->pDLSSamples + pSynth->pDLS->pDLSSampleOffsets[pDLSRegion->wtRegion.waveIndex];
     if (pDLSRegion->wtRegion.region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED)
     {
diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index ea1fe78..a581e3c 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -363,6 +363,9 @@ static EAS_RESULT WT_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNT
 
     pVoice->gain = 0;
 
+    /* start at the first sample, the phase of the previous note of this voice is gone */
+    pWTVoice->phaseFrac = DEFAULT_PHASE_FRAC;
+
 #if (NUM_OUTPUT_CHANNELS == 2)
     /*
     Get the Midi CC10 pan value for this voice's channel
-- 
2.43.0


From 55c8049fe76a7727dc396a0aee13048582e61b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 14/89] fix: MIDI file events after tick 0x7ffffff are played

The search for the next track to parse took every tick above 0x7ffffff for the
end of the track.
---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index e4279cf..23150b1 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -340,7 +340,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = SMF_END_OF_TRACK;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0


From f1eb14255ae7992a616750f9dd26b9259548c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 15/89] fix: a paused stream is still reported as paused after
 a seek

EAS_Locate resets the parser and leaves the pause request to the next
EAS_Render; until then EAS_State reported the stream as playing.
---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 396c078..3352d0a 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1699,8 +1699,8 @@ EAS_PUBLIC EAS_RESULT EAS_State (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream, E
     if (pStream->repeatCount && (*pState == EAS_STATE_STOPPED))
         *pState = EAS_STATE_PLAY;
 
-    /* if we're not paused or pausing, we don't need to hide state from host */
-    if (*pState != EAS_STATE_PAUSED && *pState != EAS_STATE_PAUSING)
+    /* if we're not playing, paused or pausing, we don't need to hide state from host */
+    if (*pState > EAS_STATE_PLAY && *pState != EAS_STATE_PAUSED && *pState != EAS_STATE_PAUSING)
         return EAS_SUCCESS;
 
     /* if stream is about to be paused, report it as paused */
-- 
2.43.0


From 397d1d4733d966754a862265aca7d6a26d791981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 16/89] fix: a resume request does not outlive the stream it
 was meant for

EAS_Resume restarts the parser at once, so EAS_Render never saw the stream
as paused and left the request set. From then on EAS_Pause accepted streams
that had already ended.
---
 arm-wt-22k/lib_src/eas_public.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 3352d0a..d96aa77 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -933,14 +933,11 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                 return result;
 
             /* handle resume */
-            if (parserState == EAS_STATE_PAUSED)
+            if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_RESUME)
             {
-                if (pEASData->streams[streamNum].streamFlags & STREAM_FLAGS_RESUME)
-                {
-                    if (pParserModule->pfResume)
-                        result = pParserModule->pfResume(pEASData, pEASData->streams[streamNum].handle);
-                    pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;
-                }
+                if ((parserState == EAS_STATE_PAUSED) && pParserModule->pfResume)
+                    result = pParserModule->pfResume(pEASData, pEASData->streams[streamNum].handle);
+                pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;
             }
 
             /* if necessary, parse stream */
-- 
2.43.0


From 01e8aba22ad1bd49d008ad8457e21bde066a8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 17/89] fix: a stream that has played to its end can be neither
 paused nor resumed

Seeking a paused stream beyond its end leaves it stopping. The pending
pause, or a resume, then put the parser back into play with no track left
to play, and EAS_Render failed with EAS_ERROR_FILE_FORMAT.
---
 arm-wt-22k/lib_src/eas_public.c | 8 ++++++++
 arm-wt-22k/lib_src/eas_smf.c    | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index d96aa77..a212bab 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2182,6 +2182,10 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
             result = pParserModule->pfPause(pEASData, pStream->handle);
         else
             result = EAS_ERROR_NOT_IMPLEMENTED;
+
+        /* drop the request if the parser refused it */
+        if (result != EAS_SUCCESS)
+            pStream->streamFlags &= ~STREAM_FLAGS_PAUSE;
     }
 
     return result;
@@ -2238,6 +2242,10 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
             result = pParserModule->pfResume(pEASData, pStream->handle);
         else
             result = EAS_ERROR_NOT_IMPLEMENTED;
+
+        /* drop the request if the parser refused it */
+        if (result != EAS_SUCCESS)
+            pStream->streamFlags &= ~STREAM_FLAGS_RESUME;
     }
 
     return result;
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 23150b1..cb2aacb 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -558,7 +558,7 @@ EAS_RESULT SMF_Pause (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* can't pause a stopped stream */
     pSMFData = (S_SMF_DATA*) pInstData;
-    if (pSMFData->state == EAS_STATE_STOPPED)
+    if ((pSMFData->state == EAS_STATE_STOPPING) || (pSMFData->state == EAS_STATE_STOPPED))
         return EAS_ERROR_ALREADY_STOPPED;
 
     /* mute the synthesizer */
@@ -591,7 +591,7 @@ EAS_RESULT SMF_Resume (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* can't resume a stopped stream */
     pSMFData = (S_SMF_DATA*) pInstData;
-    if (pSMFData->state == EAS_STATE_STOPPED)
+    if ((pSMFData->state == EAS_STATE_STOPPING) || (pSMFData->state == EAS_STATE_STOPPED))
         return EAS_ERROR_ALREADY_STOPPED;
 
     /* nothing to do but resume playback */
-- 
2.43.0


From 07c2c0dd90a78495bb444e52d5c2006c1abeef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 18/89] fix: nested DLS lists end where they end

The size of a list includes its four byte type, but the readers start after
it, so they read one chunk header too many. A collection whose last list is
the wave pool was rejected at the end of the file.
---
 arm-wt-22k/lib_src/eas_mdls.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7874d07..5151ffd 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -942,7 +942,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     pos = chunkPos;
-    endChunk = pos + size;
+    endChunk = pos + size - 4;
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1435,7 +1435,7 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             }
         }
 
-        if ((result = Parse_ins(pDLSData, chunkPos + 12, size)) != EAS_SUCCESS)
+        if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
 
@@ -1501,17 +1501,17 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             case CHUNK_LRGN:
                 lrgnPos = chunkPos + 12;
-                lrgnSize = size;
+                lrgnSize = size - 4;
                 break;
 
             default:
@@ -1688,7 +1688,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                     return EAS_ERROR_DATA_INCONSISTENCY;
                 }
             }
-            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size, artIndex)) != EAS_SUCCESS)
+            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
         }
@@ -1778,12 +1778,12 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             default:
-- 
2.43.0


From 9cf3789794fc15b578a8b4e7800f6116ba4fc871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 19/89] fix: a DLS collection loaded into a stream is freed
 with it

EAS_LoadDLSCollection kept its own reference after handing the collection
to the synthesizer of the stream, so it was never freed; a second load
dropped the first collection without freeing it while its notes went on
with region numbers of the new one.
---
 arm-wt-22k/lib_src/eas_public.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a212bab..29341b9 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -185,11 +185,19 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
-                EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
+                EAS_RESULT result;
+                S_DLS *pOldDLS = pSynth->pDLS;
+
+                /* notes of the old collection can't play on without it */
+                if (pOldDLS != NULL)
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+
+                result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
                 if (result == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
                     VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
+                    DLSCleanup(pEASData->hwInstData, pOldDLS);
                 }
                 return result;
             }
@@ -2485,8 +2493,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the synthesizer holds its own reference */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From 6156ecc02e90a3bfb7515c708a8de7c2827cf49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 20/89] fix: a rejected DLS wave pool does not leak its file
 handle

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 5151ffd..e79a223 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -877,7 +877,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* get the offset to the wave and make sure it is within the wtbl chunk */
         if ((result = EAS_HWGetDWord(pDLSData->hwInstData, tempFile, &temp, EAS_FALSE)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
         if (temp > (EAS_U32) wtblSize)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Ptbl offset exceeds size of wtbl\n"); */ }
@@ -887,7 +890,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* parse the wave */
         if ((result = Parse_wave(pDLSData, wtblPos +(EAS_I32)  temp, waveIndex)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
     }
 
     /* close the temporary handle and return */
-- 
2.43.0


From 30b343628200c275ab609cd05904157a3dcde8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 21/89] fix: 16-bit DLS waves consist of whole samples

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index e79a223..42e492a 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1022,6 +1022,10 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     if ((result = Parse_fmt(pDLSData, fmtPos, p)) != EAS_SUCCESS)
         return result;
 
+    /* ignore an incomplete 16-bit sample at the end of the data */
+    if (p->bitsPerSample == 16)
+        dataSize &= ~1;
+
     /* calculate the size of the wavetable needed. We need only half
      * the memory for 16-bit samples when in 8-bit mode, and we need
      * double the memory for 8-bit samples in 16-bit mode. For
-- 
2.43.0


From 6d89f8aa39fda58b920832c2cd8f6a6765a1b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 22/89] fix: the regions of a DLS instrument end where the
 instrument ends

---
 arm-wt-22k/lib_src/eas_mdls.c | 60 ++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 42e492a..9b2d46b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1436,15 +1436,6 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         if (temp != CHUNK_INS)
             continue;
 
-        /* if second pass, ensure instCount is less than numDLSPrograms */
-        if (pDLSData->pDLS)
-        {
-            if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
-            {
-                return EAS_ERROR_DATA_INCONSISTENCY;
-            }
-        }
-
         if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
@@ -1480,6 +1471,7 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     EAS_I32 lar2Size;
     EAS_I32 inshPos;
     EAS_U32 regionCount;
+    EAS_U32 firstRegion;
     EAS_U32 locale;
     S_DLS_ART_VALUES art;
     S_PROGRAM *pProgram;
@@ -1568,20 +1560,33 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
         if (art.values[PARAM_MODIFIED])
             Convert_art(pDLSData, &art, artIndex);
+    }
+
+    /* parse the region data */
+    firstRegion = pDLSData->regionCount;
+    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
+        return result;
+
+    /* an instrument without regions cannot be played */
+    if (pDLSData->regionCount == firstRegion)
+        return EAS_SUCCESS;
+
+    if (pDLSData->pDLS)
+    {
+        /* ensure instCount is less than numDLSPrograms */
+        if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
+        {
+            return EAS_ERROR_DATA_INCONSISTENCY;
+        }
 
         /* setup pointers */
         pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
 
         /* initialize instrument */
         pProgram->locale = locale;
-        pProgram->regionIndex = (EAS_U16) pDLSData->regionCount | FLAG_RGN_IDX_DLS_SYNTH;
-
+        pProgram->regionIndex = (EAS_U16) firstRegion | FLAG_RGN_IDX_DLS_SYNTH;
     }
 
-    /* parse the region data */
-    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
-        return result;
-
     /* bump instrument count */
     pDLSData->instCount++;
     return EAS_SUCCESS;
@@ -1667,6 +1672,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 chunkPos;
     EAS_I32 endChunk;
     EAS_U16 regionCount;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1674,6 +1680,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     regionCount = 0;
+    firstRegion = pDLSData->regionCount;
     endChunk = pos + size;
     while (pos < endChunk)
     {
@@ -1688,15 +1695,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             if (regionCount == numRegions)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
-                return EAS_SUCCESS;
-            }
-            /* if second pass, ensure regionCount is less than numDLSRegions */
-            if (pDLSData->pDLS)
-            {
-                if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
-                {
-                    return EAS_ERROR_DATA_INCONSISTENCY;
-                }
+                break;
             }
             if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
@@ -1704,8 +1703,8 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         }
     }
 
-    /* set a flag in the last region */
-    if ((pDLSData->pDLS != NULL) && (regionCount > 0))
+    /* set a flag in the last region, if any region was added */
+    if ((pDLSData->pDLS != NULL) && (pDLSData->regionCount != firstRegion))
         pDLSData->pDLS->pDLSRegions[pDLSData->regionCount - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
 
     return EAS_SUCCESS;
@@ -1801,6 +1800,15 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
         }
     }
 
+    /* if second pass, ensure regionCount is less than numDLSRegions */
+    if (pDLSData->pDLS)
+    {
+        if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
+        {
+            return EAS_ERROR_DATA_INCONSISTENCY;
+        }
+    }
+
     /* must have a rgnh chunk to be useful */
     if (!rgnhPos)
     {
-- 
2.43.0


From a149ecad481a1e462aa14a441287cecbd418ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 23/89] fix: DLS conditional chunks are evaluated to their end

---
 arm-wt-22k/lib_src/eas_mdls.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 9b2d46b..79b6ce7 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2315,6 +2315,8 @@ static EAS_RESULT ReadDLSID (SDLS_SYNTHESIZER_DATA *pDLSData, DLSID *pDLSID)
     EAS_RESULT result;
     EAS_I32 n;
 
+    /* IDs are compared including any padding */
+    EAS_HWMemSet(pDLSID, 0, sizeof(DLSID));
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data1, EAS_FALSE)) != EAS_SUCCESS)
         return result;
     if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data2, EAS_FALSE)) != EAS_SUCCESS)
@@ -2350,9 +2352,10 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
     stackPtr = -1;
     *pValue = 0;
     x = 0;
-    while (size)
+    while (size > 0)
     {
         /* read the opcode */
+        size -= 2;
         if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &opcode, EAS_FALSE)) != EAS_SUCCESS)
             return result;
 
@@ -2424,12 +2427,14 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
 
         else if (opcode == DLS_CDL_CONST)
         {
+            size -= 4;
             if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &x, EAS_FALSE)) != EAS_SUCCESS)
                 return result;
         }
 
         else if (opcode == DLS_CDL_QUERY)
         {
+            size -= 16;
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
             QueryGUID(&dlsid, &x);
@@ -2437,6 +2442,7 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
 
         else if (opcode == DLS_CDL_QUERYSUPPORTED)
         {
+            size -= 16;
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
             x = QueryGUID(&dlsid, &y);
-- 
2.43.0


From b037bdc4301e6acb25edbd411a4230cfab376f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 24/89] fix: release everything when EAS_Init runs out of
 memory

---
 arm-wt-22k/lib_src/eas_public.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 29341b9..a239cbb 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -394,6 +394,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if (!pEASData)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Failed to allocate EAS library memory\n"); */ }
+        EAS_HWShutdown(pHWInstData);
         return EAS_ERROR_MALLOC_FAILED;
     }
 
@@ -426,12 +427,16 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
 
     /* initailize the voice manager & synthesizer */
     if ((result = VMInitialize(pEASData)) != EAS_SUCCESS)
+    {
+        EAS_Shutdown(pEASData);
         return result;
+    }
 
     /* initialize mix engine */
     if ((result = EAS_MixEngineInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld starting up mix engine\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
@@ -444,6 +449,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
             if ((result = (*pEASData->effectsModules[module].effect->pfInit)(pEASData, &pEASData->effectsModules[module].effectData)) != EAS_SUCCESS)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Initialization of effects module %d returned %d\n", module, result); */ }
+                EAS_Shutdown(pEASData);
                 return result;
             }
         }
@@ -453,6 +459,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if ((result = EAS_PEInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "EAS_PEInit failed with error code %ld\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
-- 
2.43.0


From 42f548199fdbf952d5db9b53826e685b15962955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 25/89] fix: mark the file as broken when resetting it fails

---
 arm-wt-22k/lib_src/eas_smf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index cb2aacb..4fcb8eb 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -501,6 +501,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
 
+    /* assume that an error occurred */
+    pSMFData->state = EAS_STATE_ERROR;
+
     /* find the start of each track */
     ticks = 0x7fffffffL;
     pSMFData->nextStream = NULL;
-- 
2.43.0


From a94d1a77f5b0e97029e2b222a5ac47f1733ca247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 26/89] fix: the load limit applies to playing only

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a239cbb..bc7b383 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1349,8 +1349,8 @@ static EAS_RESULT EAS_ParseEvents (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
             }
         }
 
-        /* check for max workload exceeded */
-        if (VMCheckWorkload(pEASData->pVoiceMgr))
+        /* check for max workload exceeded, locating and parsing meta data have to get to the end */
+        if ((parseMode == eParserModePlay) && VMCheckWorkload(pEASData->pVoiceMgr))
         {
             /* stop even though we may not have parsed
              * all the events in this frame. The parser will try to
-- 
2.43.0


From e3cdc39ec743134eca2069e79052cab528da55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 27/89] fix: free voices do not count as playing a note

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 09fa5bb..1dfff5a 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1550,6 +1550,10 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     /* examine each voice on this channel playing this note */
     for (voiceNum = lowVoice; voiceNum <= highVoice; voiceNum++)
     {
+        /* channel and note of a free voice mean nothing */
+        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree)
+            continue;
+
         /* check stolen notes separately */
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
-- 
2.43.0


From 1b1136f1e0ebd3d2bec65d76d8915e046004c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 28/89] fix: the polyphony limit of a stream applies to its own
 voices

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 45 +++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 1dfff5a..3915069 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -186,6 +186,31 @@ void InitVoice (S_SYNTH_VOICE *pVoice)
     pVoice->voiceState = DEFAULT_VOICE_STATE;
 }
 
+/*----------------------------------------------------------------------------
+ * VMIsVoiceOf()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Tells whether a voice plays a note of a virtual synth, or is going to once it
+ * has been stolen
+ *
+ * Inputs:
+ * pVoice           pointer to voice
+ * pSynth           pointer to virtual synth
+ *
+ * Outputs:
+ * EAS_TRUE if the voice belongs to the virtual synth
+ *
+ *----------------------------------------------------------------------------
+*/
+static EAS_BOOL VMIsVoiceOf (const S_SYNTH_VOICE *pVoice, const S_SYNTH *pSynth)
+{
+    if (pVoice->voiceState == eVoiceStateFree)
+        return EAS_FALSE;
+    if (pVoice->voiceState == eVoiceStateStolen)
+        return (EAS_BOOL) (GET_VSYNTH(pVoice->nextChannel) == pSynth->vSynthNum);
+    return (EAS_BOOL) (GET_VSYNTH(pVoice->channel) == pSynth->vSynthNum);
+}
+
 /*----------------------------------------------------------------------------
  * IncVoicePoolCount()
  *----------------------------------------------------------------------------
@@ -3358,20 +3383,12 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     else
         pSynth->poolAlloc[0] = (EAS_U8) polyphonyCount;
 
-    /* are we under polyphony limit? */
-    if (pSynth->numActiveVoices <= polyphonyCount)
-        return EAS_SUCCESS;
-
-    /* count the number of active voices */
+    /* count the number of active voices, which includes those stolen for this synth */
     activeVoices = 0;
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
-            continue;
-
-        /* is voice active? */
-        if ((pVoiceMgr->voices[i].voiceState != eVoiceStateFree) && (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting))
+        /* is voice active in this synth? */
+        if (VMIsVoiceOf(&pVoiceMgr->voices[i], pSynth) && (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting))
             activeVoices++;
     }
 
@@ -3388,8 +3405,8 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         {
             pVoice = &pVoiceMgr->voices[i];
 
-            /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            /* is voice active in this synth? */
+            if (!VMIsVoiceOf(pVoice, pSynth) || (pVoice->voiceState == eVoiceStateMuting))
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3412,7 +3429,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From 61ff0e69a6bf41ef5e0299c63f23b8f564a01882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 29/89] fix: a stream at its own polyphony limit steals from
 itself

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 54 ++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 3915069..b04aab0 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -211,6 +211,35 @@ static EAS_BOOL VMIsVoiceOf (const S_SYNTH_VOICE *pVoice, const S_SYNTH *pSynth)
     return (EAS_BOOL) (GET_VSYNTH(pVoice->channel) == pSynth->vSynthNum);
 }
 
+/*----------------------------------------------------------------------------
+ * VMCountVoicesOf()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Counts the voices of a virtual synth, including those stolen for it
+ *
+ * Inputs:
+ * pVoiceMgr        pointer to synthesizer data
+ * pSynth           pointer to virtual synth
+ * muting           EAS_TRUE to include voices that are being muted
+ *
+ * Outputs:
+ * Number of voices
+ *
+ *----------------------------------------------------------------------------
+*/
+static EAS_INT VMCountVoicesOf (const S_VOICE_MGR *pVoiceMgr, const S_SYNTH *pSynth, EAS_BOOL muting)
+{
+    EAS_INT i;
+    EAS_INT count = 0;
+
+    for (i = 0; i < MAX_SYNTH_VOICES; i++)
+    {
+        if (VMIsVoiceOf(&pVoiceMgr->voices[i], pSynth) && (muting || (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)))
+            count++;
+    }
+    return count;
+}
+
 /*----------------------------------------------------------------------------
  * IncVoicePoolCount()
  *----------------------------------------------------------------------------
@@ -1699,7 +1728,7 @@ void VMStartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_
 
     /* any free voices? */
     if ((pVoiceMgr->activeVoices < pVoiceMgr->maxPolyphony) &&
-        (pSynth->numActiveVoices < maxSynthPoly) &&
+        (VMCountVoicesOf(pVoiceMgr, pSynth, EAS_TRUE) < maxSynthPoly) &&
         (EAS_SUCCESS == VMFindAvailableVoice(pVoiceMgr, &voiceNum, lowVoice, highVoice)))
     {
         S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
@@ -2049,6 +2078,23 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
     EAS_U8 currNote;
     EAS_I32 bestPriority;
     EAS_I32 currentPriority;
+    EAS_INT soundingVoices;
+    EAS_BOOL ownVoicesOnly;
+    EAS_BOOL soundingVoicesOnly;
+
+    /* a synth that has reached its own limit does not take voices from others */
+    ownVoicesOnly = (EAS_BOOL) ((pSynth->maxPolyphony != 0) &&
+        (VMCountVoicesOf(pVoiceMgr, pSynth, EAS_TRUE) >= pSynth->maxPolyphony));
+
+    /* where a limit is used up by sounding voices, one of those has to go */
+    soundingVoices = 0;
+    for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+    {
+        if ((pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateFree) && (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateMuting))
+            soundingVoices++;
+    }
+    soundingVoicesOnly = (EAS_BOOL) ((soundingVoices >= pVoiceMgr->maxPolyphony) ||
+        (ownVoicesOnly && (VMCountVoicesOf(pVoiceMgr, pSynth, EAS_FALSE) >= pSynth->maxPolyphony)));
 
     /* determine which voice to steal */
     bestPriority = 0;
@@ -2062,6 +2108,12 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         if (pCurrVoice->voiceState == eVoiceStateFree)
             continue;
 
+        /* ignore voices that would not make room */
+        if (ownVoicesOnly && !VMIsVoiceOf(pCurrVoice, pSynth))
+            continue;
+        if (soundingVoicesOnly && (pCurrVoice->voiceState == eVoiceStateMuting))
+            continue;
+
         /* for stolen voices, use the new parameters, not the old */
         if (pCurrVoice->voiceState == eVoiceStateStolen)
         {
-- 
2.43.0


From b0eb5a74336234f1d8d53c719ab69d5fc8a5c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 30/89] fix: voices changing hands survive the reset of a
 synthesizer

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index b04aab0..6ca62d3 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -501,6 +501,30 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     /* force voices to off state - may cause audio artifacts */
     if (force)
     {
+        EAS_INT i;
+
+        /* voices that are changing hands stay with the other synth */
+        for (i = 0; i < MAX_SYNTH_VOICES; i++)
+        {
+            S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[i];
+
+            if ((pVoice->voiceState != eVoiceStateStolen) || (GET_VSYNTH(pVoice->channel) == GET_VSYNTH(pVoice->nextChannel)))
+                continue;
+
+            /* the other synth had to give its voice to this one, let it fade out */
+            if (GET_VSYNTH(pVoice->nextChannel) == pSynth->vSynthNum)
+                pVoice->voiceState = eVoiceStateMuting;
+
+            /* the other synth takes over a voice of this one, it can start right now */
+            else if (GET_VSYNTH(pVoice->channel) == pSynth->vSynthNum)
+            {
+                pSynth->numActiveVoices--;
+                pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)]->numActiveVoices++;
+                pVoice->channel = pVoice->nextChannel;
+                pVoice->gain = 0;
+            }
+        }
+
         pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
         pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-- 
2.43.0


From 508fa776a0e657d97870408f0428b05dd5cd4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 31/89] fix: voices being muted do not use up the limit of a
 stream

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6ca62d3..faeaf18 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -215,26 +215,26 @@ static EAS_BOOL VMIsVoiceOf (const S_SYNTH_VOICE *pVoice, const S_SYNTH *pSynth)
  * VMCountVoicesOf()
  *----------------------------------------------------------------------------
  * Purpose:
- * Counts the voices of a virtual synth, including those stolen for it
+ * Counts the voices of a virtual synth, including those stolen for it but not
+ * those that are being muted
  *
  * Inputs:
  * pVoiceMgr        pointer to synthesizer data
  * pSynth           pointer to virtual synth
- * muting           EAS_TRUE to include voices that are being muted
  *
  * Outputs:
  * Number of voices
  *
  *----------------------------------------------------------------------------
 */
-static EAS_INT VMCountVoicesOf (const S_VOICE_MGR *pVoiceMgr, const S_SYNTH *pSynth, EAS_BOOL muting)
+static EAS_INT VMCountVoicesOf (const S_VOICE_MGR *pVoiceMgr, const S_SYNTH *pSynth)
 {
     EAS_INT i;
     EAS_INT count = 0;
 
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        if (VMIsVoiceOf(&pVoiceMgr->voices[i], pSynth) && (muting || (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)))
+        if (VMIsVoiceOf(&pVoiceMgr->voices[i], pSynth) && (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting))
             count++;
     }
     return count;
@@ -1752,7 +1752,7 @@ void VMStartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_
 
     /* any free voices? */
     if ((pVoiceMgr->activeVoices < pVoiceMgr->maxPolyphony) &&
-        (VMCountVoicesOf(pVoiceMgr, pSynth, EAS_TRUE) < maxSynthPoly) &&
+        (VMCountVoicesOf(pVoiceMgr, pSynth) < maxSynthPoly) &&
         (EAS_SUCCESS == VMFindAvailableVoice(pVoiceMgr, &voiceNum, lowVoice, highVoice)))
     {
         S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
@@ -2108,7 +2108,7 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
 
     /* a synth that has reached its own limit does not take voices from others */
     ownVoicesOnly = (EAS_BOOL) ((pSynth->maxPolyphony != 0) &&
-        (VMCountVoicesOf(pVoiceMgr, pSynth, EAS_TRUE) >= pSynth->maxPolyphony));
+        (VMCountVoicesOf(pVoiceMgr, pSynth) >= pSynth->maxPolyphony));
 
     /* where a limit is used up by sounding voices, one of those has to go */
     soundingVoices = 0;
@@ -2117,8 +2117,7 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         if ((pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateFree) && (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateMuting))
             soundingVoices++;
     }
-    soundingVoicesOnly = (EAS_BOOL) ((soundingVoices >= pVoiceMgr->maxPolyphony) ||
-        (ownVoicesOnly && (VMCountVoicesOf(pVoiceMgr, pSynth, EAS_FALSE) >= pSynth->maxPolyphony)));
+    soundingVoicesOnly = (EAS_BOOL) (ownVoicesOnly || (soundingVoices >= pVoiceMgr->maxPolyphony));
 
     /* determine which voice to steal */
     bestPriority = 0;
-- 
2.43.0


From 2bb634411e9559e29a12bc65f07844eb65516f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 32/89] fix: deferred note-offs only concern the synthesizer
 they belong to

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index faeaf18..019f880 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1119,7 +1119,8 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     /* check each voice to see if it requires a deferred note off */
     for (voiceNum=0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
     {
-        if (pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
+        if ((pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) &&
+            VMIsVoiceOf(&pVoiceMgr->voices[voiceNum], pSynth))
         {
             /* check if this voice was stolen */
             if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen)
-- 
2.43.0


From 5b5b61aed88ca2f265a2fd9e4dd0b27f82dc3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 33/89] fix: GM System On resets the channels at once

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 52 ++++++-------------------------
 1 file changed, 10 insertions(+), 42 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 019f880..de5ccf3 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -493,6 +493,7 @@ void VMIncRefCount (S_SYNTH *pSynth)
 */
 void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 {
+    EAS_INT i;
 
 #ifdef _DEBUG_VM
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: request to reset synth. Force = %d\n", force); */ }
@@ -501,8 +502,6 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     /* force voices to off state - may cause audio artifacts */
     if (force)
     {
-        EAS_INT i;
-
         /* voices that are changing hands stay with the other synth */
         for (i = 0; i < MAX_SYNTH_VOICES; i++)
         {
@@ -532,32 +531,20 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     else
         VMMuteAllVoices(pVoiceMgr, pSynth);
 
-    /* don't reset if voices are still playing */
-    if (pSynth->numActiveVoices == 0)
-    {
-        EAS_INT i;
-
+    /* voices being muted do not delay this: what follows the reset must find the channels in their initial state */
 #ifdef _DEBUG_VM
-        { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: complete the reset process\n"); */ }
+    { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: complete the reset process\n"); */ }
 #endif
 
-        VMInitializeAllChannels(pVoiceMgr, pSynth);
-        for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
-            pSynth->poolCount[i] = 0;
-
-        /* set polyphony */
-        if (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony)
-            pSynth->poolAlloc[0] = (EAS_U8) pVoiceMgr->maxPolyphony;
-        else
-            pSynth->poolAlloc[0] = (EAS_U8) pSynth->maxPolyphony;
-
-        /* clear reset flag */
-        pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
-    }
+    VMInitializeAllChannels(pVoiceMgr, pSynth);
+    for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
+        pSynth->poolCount[i] = 0;
 
-    /* handle reset after voices are muted */
+    /* set polyphony */
+    if (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony)
+        pSynth->poolAlloc[0] = (EAS_U8) pVoiceMgr->maxPolyphony;
     else
-        pSynth->synthFlags |= SYNTH_FLAG_RESET_IS_REQUESTED;
+        pSynth->poolAlloc[0] = (EAS_U8) pSynth->maxPolyphony;
 }
 
 /*----------------------------------------------------------------------------
@@ -3096,25 +3083,6 @@ EAS_RESULT VMRender (S_VOICE_MGR *pVoiceMgr, EAS_I32 numSamples, EAS_I32 *pMixBu
         if (pSynth->synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING)
             VMDeferredStopNote(pVoiceMgr, pSynth);
 
-        /* check if we need to reset the synth */
-        if ((pSynth->synthFlags & SYNTH_FLAG_RESET_IS_REQUESTED) &&
-            (pSynth->numActiveVoices == 0))
-        {
-            /*
-            complete the process of resetting the synth now that
-            all voices have muted
-            */
-#ifdef _DEBUG_VM
-            { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMAddSamples: complete the reset process\n"); */ }
-#endif
-
-            VMInitializeAllChannels(pVoiceMgr, pSynth);
-            VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-
-            /* clear the reset flag */
-            pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
-        }
-
         /* clear channel update flags */
         for (channel = 0; channel < NUM_SYNTH_CHANNELS; channel++)
             pSynth->channels[channel].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
-- 
2.43.0


From 8581ca5652a3c4ca4a99035990c6c36b71e86dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 34/89] fix: an odd RPN MSB is not lost when the LSB is
 selected

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index de5ccf3..dfe5d2f 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2540,7 +2540,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From e9dd79d3fed5b80806778326fd61f93c92ede298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 35/89] fix: sign-extend the gain of a DLS wsmp chunk

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 79b6ce7..8661048 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1131,6 +1131,9 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
     /* get gain */
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->gain, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    /* the gain is a signed 32-bit value, but EAS_I32 may be wider */
+    if (p->gain & 0x80000000L)
+        p->gain |= ~0xffffffffL;
     if (p->gain > 0)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "Positive gain [%ld] in DLS wsmp ignored, set to 0dB\n", p->gain); */ }
-- 
2.43.0


From 44063a57ae6de588ecc4af307c4d2293a57da94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 36/89] fix: keep the pool count when all notes off mutes
 voices

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index dfe5d2f..6741171 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1070,8 +1070,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
-                GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
-                pVoice->voiceState = eVoiceStateMuting;
+                VMMuteVoice(pVoiceMgr, voiceNum);
             }
         }
     }
-- 
2.43.0


From 21f15590507f016186cb3d2dab59f5336f01beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 37/89] fix: a reverb preset takes effect when it is set

---
 arm-wt-22k/lib_src/eas_reverb.c |  4 +++-
 example/sonivoxrender.c         | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index cd5befe..b9ebcba 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -170,7 +170,7 @@ static EAS_RESULT ReverbInit(EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
 
     pReverbData->m_nNextRoom = 1;
 
-    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom + 1; // force update on first iteration
+    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom; // its parameters are set below
 
     pReverbData->m_nWet = REVERB_DEFAULT_WET;
 
@@ -877,6 +877,8 @@ static EAS_RESULT ReverbSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_REVERB_CHAMBER && value!=EAS_PARAM_REVERB_ROOM)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextRoom = (EAS_I16)value;
+            // at once, so that parameters set later are not overwritten
+            ReverbUpdateRoom(p);
             break;
         case EAS_PARAM_REVERB_WET:
             if(value>EAS_REVERB_WET_MAX || value<EAS_REVERB_WET_MIN)
diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 285839f..2da99a8 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -101,13 +101,6 @@ int initializeLibrary(void)
         }
     }
 
-    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
-    if (result != EAS_SUCCESS) {
-        fprintf(stderr, "Failed to set reverb wet amount");
-        ok = EXIT_FAILURE;
-        goto cleanup;
-    }
-
     EAS_BOOL sw = EAS_TRUE;
     EAS_I32 preset = reverb_type - 1;
     if ( preset >= EAS_PARAM_REVERB_LARGE_HALL && preset <= EAS_PARAM_REVERB_ROOM ) {
@@ -119,6 +112,13 @@ int initializeLibrary(void)
             goto cleanup;
         }
     }
+    /* after the preset, which sets the wet amount as well */
+    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
+    if (result != EAS_SUCCESS) {
+        fprintf(stderr, "Failed to set reverb wet amount");
+        ok = EXIT_FAILURE;
+        goto cleanup;
+    }
     result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, sw);
     if (result != EAS_SUCCESS) {
         fprintf(stderr, "Failed to set reverb bypass");
-- 
2.43.0


From 16c403ae91e0fd0a8d47c64e0626d9d9ee34657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 38/89] fix: apply the dry level of the reverb

---
 arm-wt-22k/lib_src/eas_reverb.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index b9ebcba..2a95119 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -538,7 +538,10 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
     EAS_I32 nEarlyOut;
 
     EAS_I32 tempValue;
+    EAS_I32 nDry;
 
+    // full level leaves the samples as they are
+    nDry = (pReverbData->m_nDry == EAS_REVERB_DRY_MAX) ? 0x8000 : pReverbData->m_nDry;
 
     // get the base address
     nBase = pReverbData->m_nBaseIndex;
@@ -714,7 +717,7 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
         /*lint -e{701} use shift for performance */
         tempValue = MULT_EG1_EG1(tempValue, (pReverbData->m_nWet<<1));
         //sum with output buffer
-        tempValue += *pOutputBuffer;
+        tempValue += MULT_EG1_EG1(*pOutputBuffer, nDry);
         *pOutputBuffer++ = (EAS_PCM)SATURATE(tempValue);
 
         // ********** end early reflection generator, left
@@ -753,7 +756,7 @@ static EAS_RESULT Reverb(S_REVERB_OBJECT *pReverbData, EAS_INT nNumSamplesToAdd,
         /*lint -e{701} use shift for performance */
         tempValue = MULT_EG1_EG1(tempValue, (pReverbData->m_nWet << 1));
         //sum with output buffer
-        tempValue = tempValue + *pOutputBuffer;
+        tempValue = tempValue + MULT_EG1_EG1(*pOutputBuffer, nDry);
         *pOutputBuffer++ = (EAS_PCM)SATURATE(tempValue);
 
         // ********** end early reflection generator, right
-- 
2.43.0


From b10247cfd940a0f9f50ed7c93af0cc95855d51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 39/89] fix: a chorus preset takes effect when it is set

---
 arm-wt-22k/lib_src/eas_chorus.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 4a2c8d0..cbb81eb 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -491,6 +491,8 @@ static EAS_RESULT ChorusSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_CHORUS_PRESET3 && value!=EAS_PARAM_CHORUS_PRESET4)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextChorus = (EAS_I8)value;
+            // at once, so that parameters set later are not overwritten
+            ChorusUpdate(p);
             break;
         case EAS_PARAM_CHORUS_RATE:
             if(value<EAS_CHORUS_RATE_MIN || value>EAS_CHORUS_RATE_MAX)
-- 
2.43.0


From 96355f4095d5027130eb8d3d87f7bf2f7a4c8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 40/89] fix: convert chorus rate and depth as set by parameter

---
 arm-wt-22k/lib_src/eas_chorus.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index cbb81eb..63ed563 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -162,6 +162,7 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->m_nLevel = pPreset->m_nLevel;
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
+    pChorusData->pPreset = *pPreset;    // as set, before the conversion below
 
     pChorusData->m_nRate = (EAS_I16)
         ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
@@ -442,10 +443,10 @@ static EAS_RESULT ChorusGetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
             *pValue = (EAS_I8) p->m_nCurrentChorus;
             break;
         case EAS_PARAM_CHORUS_RATE:
-            *pValue = (EAS_I32) p->m_nRate;
+            *pValue = (EAS_I32) p->pPreset.m_nRate;
             break;
         case EAS_PARAM_CHORUS_DEPTH:
-            *pValue = (EAS_I32) p->m_nDepth;
+            *pValue = (EAS_I32) p->pPreset.m_nDepth;
             break;
         case EAS_PARAM_CHORUS_LEVEL:
             *pValue = (EAS_I32) p->m_nLevel;
@@ -497,12 +498,16 @@ static EAS_RESULT ChorusSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
         case EAS_PARAM_CHORUS_RATE:
             if(value<EAS_CHORUS_RATE_MIN || value>EAS_CHORUS_RATE_MAX)
                 return EAS_ERROR_INVALID_PARAMETER;
-            p->m_nRate = (EAS_I16) value;
+            p->pPreset.m_nRate = (EAS_I16) value;
+            p->m_nRate = (EAS_I16)
+                ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * value);
             break;
         case EAS_PARAM_CHORUS_DEPTH:
             if(value<EAS_CHORUS_DEPTH_MIN || value>EAS_CHORUS_DEPTH_MAX)
                 return EAS_ERROR_INVALID_PARAMETER;
-            p->m_nDepth = (EAS_I16) value;
+            p->pPreset.m_nDepth = (EAS_I16) value;
+            p->m_nDepth = (EAS_I16)
+                ((((value * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
             break;
         case EAS_PARAM_CHORUS_LEVEL:
             if(value<EAS_CHORUS_LEVEL_MIN || value>EAS_CHORUS_LEVEL_MAX)
@@ -591,6 +596,7 @@ static EAS_RESULT ChorusUpdate(S_CHORUS_OBJECT *pChorusData)
     pChorusData->m_nLevel = pPreset->m_nLevel;
     pChorusData->m_nRate =  pPreset->m_nRate;
     pChorusData->m_nDepth = pPreset->m_nDepth;
+    pChorusData->pPreset = *pPreset;    // as set, before the conversion below
 
     pChorusData->m_nRate = (EAS_I16)
         ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-- 
2.43.0


From c9e3ca9b059e006b893526676555048a49698dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 41/89] fix: accept a region loop that ends with its wave

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 8661048..74fa2c2 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1070,7 +1070,8 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     /* allocate memory and read in the sample data */
     pSample = (EAS_U8*)pDLSData->pDLS->pDLSSamples + pDLSData->wavePoolOffset;
     pDLSData->pDLS->pDLSSampleOffsets[waveIndex] = pDLSData->wavePoolOffset;
-    pDLSData->pDLS->pDLSSampleLen[waveIndex] = (EAS_U32) size;
+    /* without the extra sample of a looped wave */
+    pDLSData->pDLS->pDLSSampleLen[waveIndex] = (EAS_U32) size - (p->loopLength ? sizeof(EAS_SAMPLE) : 0);
     pDLSData->wavePoolOffset += (EAS_U32) size;
     if (pDLSData->wavePoolOffset > pDLSData->wavePoolSize)
     {
@@ -1886,8 +1887,7 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
         if (pWsmp->loopLength != 0)
         {
             EAS_U32 sampleLen = pDLSData->pDLS->pDLSSampleLen[waveIndex];
-            if (sampleLen < sizeof(EAS_SAMPLE)
-                || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE))
+            if ((pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen)
             {
                 return EAS_FAILURE;
             }
-- 
2.43.0


From aea737e952714770a4c1acb73109d38d034d891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 42/89] fix: a region may play a looped wave without its loop

---
 arm-wt-22k/lib_src/eas_mdls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 74fa2c2..74472ee 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1149,6 +1149,9 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
 
+    /* a region may set a wave not to loop */
+    p->loopStart = p->loopLength = 0;
+
     /* if looped sample, get loop data */
     if (ltemp)
     {
-- 
2.43.0


From 037f38beb28f3b506255a63e21429d33904aeb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 43/89] fix: Master Volume by message and the volume of the
 stream are independent

---
 arm-wt-22k/lib_src/eas_midi.c      |  2 +-
 arm-wt-22k/lib_src/eas_synth.h     |  3 ++-
 arm-wt-22k/lib_src/eas_vm_protos.h | 17 ++++++++++++++++-
 arm-wt-22k/lib_src/eas_voicemgt.c  | 23 ++++++++++++++++++++++-
 arm-wt-22k/lib_src/eas_wtsynth.c   |  2 ++
 5 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 4116981..b5dd043 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -451,7 +451,7 @@ static EAS_RESULT ProcessSysExMessage (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_
             {
                 EAS_I32 gain = ((EAS_I32) c << 8) | ((EAS_I32) pMIDIStream->d1 << 1);
                 gain = (gain * gain) >> 15;
-                VMSetVolume(pSynth, (EAS_U16) gain);
+                VMSetMIDIMasterVolume(pSynth, (EAS_U16) gain);
             }
             pMIDIStream->sysExState = eSysExEOX;
             break;
diff --git a/arm-wt-22k/lib_src/eas_synth.h b/arm-wt-22k/lib_src/eas_synth.h
index 6274b7d..59725b8 100644
--- a/arm-wt-22k/lib_src/eas_synth.h
+++ b/arm-wt-22k/lib_src/eas_synth.h
@@ -321,7 +321,8 @@ typedef struct s_synth_tag
     EAS_I32                 totalNoteCount;
     EAS_U16                 maxPolyphony;
     EAS_U16                 numActiveVoices;
-    EAS_U16                 masterVolume;
+    EAS_U16                 masterVolume;       /* volume of the stream, set by the application */
+    EAS_U16                 midiMasterVolume;   /* Master Volume, set by system exclusive message */
     EAS_U8                  channelsByPriority[NUM_SYNTH_CHANNELS];
     EAS_U8                  poolCount[NUM_SYNTH_CHANNELS];
     EAS_U8                  poolAlloc[NUM_SYNTH_CHANNELS];
diff --git a/arm-wt-22k/lib_src/eas_vm_protos.h b/arm-wt-22k/lib_src/eas_vm_protos.h
index 20f7c09..8bb8fa4 100644
--- a/arm-wt-22k/lib_src/eas_vm_protos.h
+++ b/arm-wt-22k/lib_src/eas_vm_protos.h
@@ -809,12 +809,27 @@ EAS_RESULT VMGetPriority (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 *pPri
  *
  *
  * Side Effects:
- * overrides any previously set master volume from sysex
+ * applies in addition to the master volume from sysex
  *
  *----------------------------------------------------------------------------
 */
 void VMSetVolume (S_SYNTH *pSynth, EAS_U16 masterVolume);
 
+/*----------------------------------------------------------------------------
+ * VMSetMIDIMasterVolume()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Set the master volume received by sysex, it applies in addition to the
+ * volume of the stream.
+ *
+ * Inputs:
+ * pSynth - pointer to synth
+ * masterVolume - the desired master volume
+ *
+ *----------------------------------------------------------------------------
+*/
+void VMSetMIDIMasterVolume (S_SYNTH *pSynth, EAS_U16 masterVolume);
+
 /*----------------------------------------------------------------------------
  * VMSetPitchBendRange()
  *----------------------------------------------------------------------------
diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6741171..9adfc47 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -440,6 +440,7 @@ EAS_RESULT VMInitMIDI (S_EAS_DATA *pEASData, S_SYNTH **ppSynth)
     /* initialize MIDI state variables */
     pSynth->synthFlags = DEFAULT_SYNTH_FLAGS;
     pSynth->masterVolume = DEFAULT_SYNTH_MASTER_VOLUME;
+    pSynth->midiMasterVolume = DEFAULT_SYNTH_MASTER_VOLUME;
     pSynth->refCount = 1;
     pSynth->priority = DEFAULT_SYNTH_PRIORITY;
     pSynth->poolAlloc[0] = (EAS_U8) pEASData->pVoiceMgr->maxPolyphony;
@@ -536,6 +537,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: complete the reset process\n"); */ }
 #endif
 
+    VMSetMIDIMasterVolume(pSynth, DEFAULT_SYNTH_MASTER_VOLUME);
     VMInitializeAllChannels(pVoiceMgr, pSynth);
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
         pSynth->poolCount[i] = 0;
@@ -3587,7 +3589,7 @@ EAS_RESULT VMGetPriority (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 *pPri
  *
  *
  * Side Effects:
- * overrides any previously set master volume from sysex
+ * applies in addition to the master volume from sysex
  *
  *----------------------------------------------------------------------------
 */
@@ -3597,6 +3599,25 @@ void VMSetVolume (S_SYNTH *pSynth, EAS_U16 masterVolume)
     pSynth->synthFlags |= SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS;
 }
 
+/*----------------------------------------------------------------------------
+ * VMSetMIDIMasterVolume()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Set the master volume received by sysex, it applies in addition to the
+ * volume of the stream.
+ *
+ * Inputs:
+ * pSynth - pointer to synth
+ * masterVolume - the desired master volume
+ *
+ *----------------------------------------------------------------------------
+*/
+void VMSetMIDIMasterVolume (S_SYNTH *pSynth, EAS_U16 masterVolume)
+{
+    pSynth->midiMasterVolume = masterVolume;
+    pSynth->synthFlags |= SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS;
+}
+
 /*----------------------------------------------------------------------------
  * VMSetPitchBendRange()
  *----------------------------------------------------------------------------
diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index a581e3c..e5ae40b 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -734,6 +734,8 @@ static void WT_UpdateChannel (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 ch
     /* staticGain has to be squared */
     staticGain = MULT_EG1_EG1(staticGain, staticGain);
 
+    if (pSynth->midiMasterVolume != DEFAULT_SYNTH_MASTER_VOLUME)
+        staticGain = MULT_EG1_EG1(staticGain, pSynth->midiMasterVolume);
     pChannel->staticGain = (EAS_I16) MULT_EG1_EG1(staticGain, pSynth->masterVolume);
 
     /*
-- 
2.43.0


From eb31feeca65eb5ff78f5b6456b90adf16cafcac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 44/89] fix: channels do not stay muted when SP-MIDI is
 switched off

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 9adfc47..3f0177d 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -740,6 +740,7 @@ void VMInitMIPTable (S_SYNTH *pSynth)
     {
         pSynth->channels[i].pool = 0;
         pSynth->channels[i].mip = 0;
+        pSynth->channels[i].channelFlags &= ~CHANNEL_FLAG_MUTE;
     }
 }
 
-- 
2.43.0


From 4af156ec38377d2d439cee32d948076dbd07d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 45/89] fix: removing the polyphony limit of a stream lets its
 SP-MIDI channels play again

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 3f0177d..cd66a56 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3413,6 +3413,8 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     if ((polyphonyCount == 0) || (polyphonyCount > MAX_SYNTH_VOICES))
     {
         pSynth->maxPolyphony = 0;
+        if (pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON)
+            VMMIPUpdateChannelMuting(pVoiceMgr, pSynth);
         return EAS_SUCCESS;
     }
 
-- 
2.43.0


From 0feb82d13e70f71b66f8e5c09347e16d59ee6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 46/89] fix: SP-MIDI muting follows the lower of both polyphony
 limits

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index cd66a56..6876c8b 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -787,7 +787,7 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
 #endif
 
     /* determine max polyphony */
-    if (pSynth->maxPolyphony)
+    if (pSynth->maxPolyphony && (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony))
         maxPolyphony = pSynth->maxPolyphony;
     else
         maxPolyphony = pVoiceMgr->maxPolyphony;
-- 
2.43.0


From 531b82a06b3f31d9b09a12e807cc9ef855cdac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 47/89] fix: a stream that starts over is not in SP-MIDI mode

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6876c8b..ca09db2 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -567,6 +567,7 @@ void VMInitializeAllChannels (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     EAS_INT i;
 
     VMResetControllers(pSynth);
+    VMInitMIPTable(pSynth);
 
     /* init each channel */
     pChannel = pSynth->channels;
-- 
2.43.0


From f3395918b812f0cf5f79e68f0de012b79bd7b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 48/89] fix: voices of channels muted by SP-MIDI are given up
 first

---
 arm-wt-22k/lib_src/eas_synth.h    |  1 +
 arm-wt-22k/lib_src/eas_voicemgt.c | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_synth.h b/arm-wt-22k/lib_src/eas_synth.h
index 59725b8..b903da0 100644
--- a/arm-wt-22k/lib_src/eas_synth.h
+++ b/arm-wt-22k/lib_src/eas_synth.h
@@ -108,6 +108,7 @@
 #define CHANNEL_PRIORITY_STEAL_WEIGHT   2
 #define NOTE_MATCH_PENALTY              128
 #define SYNTH_PRIORITY_WEIGHT           8
+#define MUTED_CHANNEL_STEAL_PENALTY     (1L << 20)
 
 /* default synth master volume */
 #define DEFAULT_SYNTH_MASTER_VOLUME     0x7fff
diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ca09db2..fe28111 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3320,6 +3320,11 @@ EAS_RESULT VMSetSynthPolyphony (S_VOICE_MGR *pVoiceMgr, EAS_I32 synth, EAS_I32 p
                 currentPriority += pSynth->channels[GET_CHANNEL(pVoice->channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
+            /* voices of channels muted by SP-MIDI are ending anyway */
+            if ((pVoice->voiceState != eVoiceStateStolen) &&
+                (pSynth->channels[GET_CHANNEL(pVoice->channel)].channelFlags & CHANNEL_FLAG_MUTE))
+                    currentPriority += MUTED_CHANNEL_STEAL_PENALTY;
+
             /* include synth priority */
             currentPriority += pSynth->priority << SYNTH_PRIORITY_WEIGHT;
 
@@ -3481,6 +3486,11 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                 currentPriority += pSynth->channels[GET_CHANNEL(pVoice->channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
+            /* voices of channels muted by SP-MIDI are ending anyway */
+            if ((pVoice->voiceState != eVoiceStateStolen) &&
+                (pSynth->channels[GET_CHANNEL(pVoice->channel)].channelFlags & CHANNEL_FLAG_MUTE))
+                    currentPriority += MUTED_CHANNEL_STEAL_PENALTY;
+
             /* is this the best choice so far? */
             if (currentPriority > bestPriority)
             {
-- 
2.43.0


From b5f8487016c7985af65868e4aa237e3293c4e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 49/89] fix: SP-MIDI channels get the share of voices their
 table gives them

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index fe28111..ac04afc 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -883,10 +883,16 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
 
     /* sort channels into priority order */
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
+    {
         priority[i] = -1;
+        pSynth->poolAlloc[i] = 0;
+    }
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
-        if (pSynth->channels[i].pool != DEFAULT_SP_MIDI_PRIORITY)
+        /* channels that are not in the table are muted and have no share */
+        if (pSynth->channels[i].mip == 0)
+            pSynth->channels[i].pool = NUM_SYNTH_CHANNELS - 1;
+        else
             priority[pSynth->channels[i].pool] = i;
     }
 
@@ -895,9 +901,8 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     currentPool = -1;
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
-        /* stop when we run out of channels */
         if (priority[i] == -1)
-            break;
+            continue;
 
         pChannel = &pSynth->channels[priority[i]];
 
@@ -911,6 +916,7 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         else
         {
             currentPool++;
+            pChannel->pool = (EAS_U8) currentPool;
             pSynth->poolAlloc[currentPool] = (EAS_U8) (pChannel->mip - currentMIP);
             currentMIP = pChannel->mip;
         }
-- 
2.43.0


From 7ef70cefc80e9b5e7b2ddda78e3ac167b4a32d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 50/89] fix: a channel that exceeds its SP-MIDI share takes
 voices from itself

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ac04afc..95135da 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2173,12 +2173,18 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         }
 
         /* in SP-MIDI mode, include over poly allocation and channel priority */
-        if (pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON)
+        if (pCurrSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON)
         {
             S_SYNTH_CHANNEL *pChannel = &pCurrSynth->channels[GET_CHANNEL(currChannel)];
+            EAS_I32 excess = (EAS_I32) pCurrSynth->poolCount[pChannel->pool] - (EAS_I32) pCurrSynth->poolAlloc[pChannel->pool];
+
+            /* the new note counts, too */
+            if ((pCurrSynth == pSynth) && (pChannel->pool == pSynth->channels[channel].pool))
+                excess++;
+
             /*lint -e{701} use shift for performance */
-            if (pSynth->poolCount[pChannel->pool] >= pSynth->poolAlloc[pChannel->pool])
-                currentPriority += (pSynth->poolCount[pChannel->pool] -pSynth->poolAlloc[pChannel->pool] + 1) << CHANNEL_POLY_STEAL_WEIGHT;
+            if (excess > 0)
+                currentPriority += excess << CHANNEL_POLY_STEAL_WEIGHT;
 
             /* include channel priority */
             currentPriority += (EAS_I32)(pChannel->pool << CHANNEL_PRIORITY_STEAL_WEIGHT);
-- 
2.43.0


From b5f0fda76b93c1dd94de54861c48fa80261cd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 51/89] fix: a voice being muted is not brought back to play
 its note again

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 95135da..2b6f662 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1625,8 +1625,8 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     /* examine each voice on this channel playing this note */
     for (voiceNum = lowVoice; voiceNum <= highVoice; voiceNum++)
     {
-        /* channel and note of a free voice mean nothing */
-        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree)
+        /* channel and note of a free voice mean nothing, a voice being muted does not play its note any longer */
+        if ((pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree) || (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateMuting))
             continue;
 
         /* check stolen notes separately */
-- 
2.43.0


From 70ae546144584acbc1f3e80de56021ed155cd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 52/89] fix: a voice being muted does not count in its SP-MIDI
 pool

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 2b6f662..a8f0324 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -849,8 +849,8 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
             }
         }
 
-        /* not muted, count this voice */
-        else
+        /* not muted, count this voice unless it is muting */
+        else if (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)
             pSynth->poolCount[pool]++;
     }
 }
-- 
2.43.0


From b9cdc763d619bce818552aef58c8dbd30772e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 53/89] example: restore sonivoxrender.c as it was

---
 example/sonivoxrender.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/example/sonivoxrender.c b/example/sonivoxrender.c
index 2da99a8..285839f 100644
--- a/example/sonivoxrender.c
+++ b/example/sonivoxrender.c
@@ -101,6 +101,13 @@ int initializeLibrary(void)
         }
     }
 
+    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
+    if (result != EAS_SUCCESS) {
+        fprintf(stderr, "Failed to set reverb wet amount");
+        ok = EXIT_FAILURE;
+        goto cleanup;
+    }
+
     EAS_BOOL sw = EAS_TRUE;
     EAS_I32 preset = reverb_type - 1;
     if ( preset >= EAS_PARAM_REVERB_LARGE_HALL && preset <= EAS_PARAM_REVERB_ROOM ) {
@@ -112,13 +119,6 @@ int initializeLibrary(void)
             goto cleanup;
         }
     }
-    /* after the preset, which sets the wet amount as well */
-    result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, reverb_wet);
-    if (result != EAS_SUCCESS) {
-        fprintf(stderr, "Failed to set reverb wet amount");
-        ok = EXIT_FAILURE;
-        goto cleanup;
-    }
     result = EAS_SetParameter(mEASDataHandle, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, sw);
     if (result != EAS_SUCCESS) {
         fprintf(stderr, "Failed to set reverb bypass");
-- 
2.43.0


From 79b337b5fb1689a188ef123d12646281c6cdca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 54/89] fix: find a header that directly follows the beginning
 of one

---
 arm-wt-22k/lib_src/eas_public.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index bc7b383..28712cb 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2662,7 +2662,7 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
             }
         }
         else
-            index = 0;
+            index = (c == searchString[0]) ? 1 : 0;
     }
     return EAS_SUCCESS;
 }
-- 
2.43.0


From e29d313368a741d914c1b208deaa8a601f4ba848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 55/89] fix: a tremolo can raise a voice's gain above full
 scale

---
 arm-wt-22k/lib_src/eas_wtsynth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index e5ae40b..4ef82c1 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -808,7 +808,11 @@ static EAS_I32 WT_UpdateGain (S_SYNTH_VOICE *pVoice, S_WT_VOICE *pWTVoice, const
 
     /* convert from a dB-like value to linear gain */
     lfoGain = EAS_Calculate2toX(lfoGain);
-    temp = MULT_EG1_EG1(temp, lfoGain);
+    temp = (EAS_I32) (((int64_t) temp * lfoGain) >> NUM_EG1_FRAC_BITS);
+
+    /* the LFO can raise the gain above full scale */
+    if (temp > SYNTH_FULL_SCALE_EG1_GAIN)
+        temp = SYNTH_FULL_SCALE_EG1_GAIN;
 
     /* calculate the voice's gain */
     temp = (EAS_I16)MULT_EG1_EG1(temp, pWTVoice->eg1Value);
-- 
2.43.0


From ae7e06bd701bb6701ea3ad7e4033540980869b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 56/89] fix: end notes when a stream's sound library is
 replaced

---
 arm-wt-22k/lib_src/eas_public.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 28712cb..7632209 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -204,7 +204,14 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #endif
 
         case PARSER_DATA_EAS_LIBRARY:
-            return VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+            {
+                EAS_RESULT result = VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+
+                /* notes and programs of the old library mean nothing in the new one */
+                if (result == EAS_SUCCESS)
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+                return result;
+            }
 
         case PARSER_DATA_POLYPHONY:
             return VMSetPolyphony(pEASData->pVoiceMgr, pSynth, value);
-- 
2.43.0


From 1a105452575cb1ead567031a2e2516363f9b0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 57/89] fix: a note without any sound library is not played

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index a8f0324..abbb363 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1901,6 +1901,10 @@ void VMStartNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_U
 
     /* braces here for #if clause */
     {
+        /* nothing to play without a sound library */
+        if (pSynth->pEAS == NULL)
+            return;
+
         /* EAS voice */
         for (;;)
         {
-- 
2.43.0


From e5877c4ac90fdaedd1b2e1cf068c46c83b0cf294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 58/89] fix: a stolen voice keeps the key group's mute

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index abbb363..ef2a863 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1498,6 +1498,9 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /*lint -e{522} return not used at this time */
     GetSynthPtr(voiceNum)->pfStartVoice(pVoiceMgr, pNextSynth, &pVoiceMgr->voices[voiceNum], GetAdjustedVoiceNum(voiceNum), pVoice->regionIndex);
 
+    /* was the new note already ended by a note of its key group? */
+    pVoice->voiceFlags |= flags & VOICE_FLAG_DEFER_MUTE;
+
     /* did the new note already receive a MIDI note-off request? */
     if (flags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
     {
-- 
2.43.0


From 15cf31801058dad741496133969fa4fa940c088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 59/89] fix: a note in a stolen voice is judged by its own
 channel's SP-MIDI mute

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ef2a863..8e39667 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1447,8 +1447,8 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
+    pMIDIChannel = &pNextSynth->channels[GET_CHANNEL(pVoice->nextChannel)];
 
 #ifdef _DEBUG_VM
 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: retargeting stolen voice %d on channel %d\n",
@@ -1459,7 +1459,7 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
         VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
-- 
2.43.0


From b418835f38237ed3334118e16a1df9d561a649b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 60/89] fix: an RTTTL note b with an octave or at the end of
 the text is played

---
 arm-wt-22k/lib_src/eas_rtttl.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_rtttl.c b/arm-wt-22k/lib_src/eas_rtttl.c
index 4d0490b..0c94285 100644
--- a/arm-wt-22k/lib_src/eas_rtttl.c
+++ b/arm-wt-22k/lib_src/eas_rtttl.c
@@ -356,20 +356,22 @@ static EAS_RESULT RTTTL_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS
         /* bpm */
         if (c == 'b')
         {
-            /* peek at next character */
-            if ((result = RTTTL_PeekNextChar(pEASData->hwInstData, pData, &c)) != EAS_SUCCESS)
+            /* peek at next character, the end of the file ends a note */
+            result = RTTTL_PeekNextChar(pEASData->hwInstData, pData, &c);
+            if ((result != EAS_SUCCESS) && (result != EAS_EOF))
                 return result;
 
             /* if a number, must be octave or tempo */
-            if (IsDigit(c))
+            if ((result == EAS_SUCCESS) && IsDigit(c))
             {
                 if ((result = RTTTL_GetNumber(pEASData->hwInstData, pData, &temp)) != EAS_SUCCESS)
                     return result;
 
-                /* check for octave first */
+                /* check for octave first, this is a note */
                 if ((temp >= 4) && (temp <= 7))
                 {
-                    octave = (EAS_U8) temp;
+                    note = noteTable[1];
+                    octave = (EAS_U8) (temp * 12);
                 }
 
                 /* check for tempo */
-- 
2.43.0


From 147a6a12df12b1bc6744d26d769c69db246f54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 61/89] fix: an octave or tempo given inside an RTTTL melody
 applies to the next note

---
 arm-wt-22k/lib_src/eas_rtttl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_rtttl.c b/arm-wt-22k/lib_src/eas_rtttl.c
index 0c94285..b43d478 100644
--- a/arm-wt-22k/lib_src/eas_rtttl.c
+++ b/arm-wt-22k/lib_src/eas_rtttl.c
@@ -378,6 +378,7 @@ static EAS_RESULT RTTTL_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS
                 else if ((temp >= 25) && (temp <= 900))
                 {
                     pData->tick = TICK_CONVERT / (EAS_U32) temp;
+                    ticks = pData->duration * pData->tick;
                 }
 
                 /* don't know what it was */
@@ -397,6 +398,7 @@ static EAS_RESULT RTTTL_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS
         {
             if ((result = RTTTL_GetOctave(pEASData->hwInstData, pData, &pData->octave)) != EAS_SUCCESS)
                 return result;
+            octave = pData->octave;
         }
 
         /* style */
-- 
2.43.0


From d78fca7721a63a08ec853a3e2d26b8784f17640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 62/89] fix: an iMelody tune ends at END:IMELODY

---
 arm-wt-22k/lib_src/eas_imelody.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_imelody.c b/arm-wt-22k/lib_src/eas_imelody.c
index 1c706e8..a69f208 100644
--- a/arm-wt-22k/lib_src/eas_imelody.c
+++ b/arm-wt-22k/lib_src/eas_imelody.c
@@ -1628,6 +1628,8 @@ static EAS_I8 IMY_GetNextChar (EAS_HW_DATA_HANDLE hwInstData, S_IMELODY_DATA *pD
 #ifdef _DEBUG_IMELODY
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_DETAIL, "IMY_GetNextChar: found END:IMELODY\n"); */ }
 #endif
+                /* stay in front of it, the melody must not go on behind it when this is called again */
+                EAS_HWFileSeek(hwInstData, pData->fileHandle, pData->startLine);
                 pData->buffer[0] = 0;
                 return 0;
             }
-- 
2.43.0


From 8e77b6fb1850db45f6fb3b269b17d58b209426b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 63/89] fix: an OTA ringtone that plays is in the play state

---
 arm-wt-22k/lib_src/eas_ota.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_ota.c b/arm-wt-22k/lib_src/eas_ota.c
index 740d1ea..9bff084 100644
--- a/arm-wt-22k/lib_src/eas_ota.c
+++ b/arm-wt-22k/lib_src/eas_ota.c
@@ -334,6 +334,9 @@ static EAS_RESULT OTA_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_I
     if (pData->state >= EAS_STATE_OPEN)
         return EAS_SUCCESS;
 
+    if (pData->state == EAS_STATE_READY)
+        pData->state = EAS_STATE_PLAY;
+
     /* initialize MIDI channel when the track starts playing */
     if (pData->time == 0)
     {
-- 
2.43.0


From b62fe723566ad65e361b2324e1dba8d6fbe33765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 64/89] fix: an OTA song goes on behind a repeated pattern

---
 arm-wt-22k/lib_src/eas_ota.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_ota.c b/arm-wt-22k/lib_src/eas_ota.c
index 9bff084..a838685 100644
--- a/arm-wt-22k/lib_src/eas_ota.c
+++ b/arm-wt-22k/lib_src/eas_ota.c
@@ -450,6 +450,7 @@ static EAS_RESULT OTA_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_I
         {
             if ((result = OTA_RestorePosition(pEASData->hwInstData, pData, &pData->restore)) != EAS_SUCCESS)
                 return result;
+            pData->restore.fileOffset = -1;
         }
     }
 
@@ -1086,7 +1087,6 @@ static EAS_RESULT OTA_SavePosition (EAS_HW_DATA_HANDLE hwInstData, S_OTA_DATA *p
 static EAS_RESULT OTA_RestorePosition (EAS_HW_DATA_HANDLE hwInstData, S_OTA_DATA *pData, S_OTA_LOC *pLoc)
 {
     EAS_HWMemCpy(&pData->current, pLoc, sizeof(S_OTA_LOC));
-    pData->restore.fileOffset = -1;
     return EAS_HWFileSeek(hwInstData, pData->fileHandle, pLoc->fileOffset);
 }
 
-- 
2.43.0


From ddd39fe76b7efbf37cab2c4aa772a1a48ab744b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 65/89] fix: an iMelody text is terminated inside the metadata
 buffer

---
 arm-wt-22k/lib_src/eas_imelody.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_imelody.c b/arm-wt-22k/lib_src/eas_imelody.c
index a69f208..e87391f 100644
--- a/arm-wt-22k/lib_src/eas_imelody.c
+++ b/arm-wt-22k/lib_src/eas_imelody.c
@@ -1414,9 +1414,11 @@ static void IMY_MetaData (S_IMELODY_DATA *pData, E_EAS_METADATA_TYPE metaType, E
         return;
 
     /* copy data to host buffer */
+    if (pData->metadata.bufferSize < 1)
+        return;
     len = (EAS_I32) strlen((char*) buffer);
-    if (len >pData->metadata.bufferSize)
-        len = pData->metadata.bufferSize;
+    if (len > pData->metadata.bufferSize - 1)
+        len = pData->metadata.bufferSize - 1;
     strncpy((char*) pData->metadata.buffer, (char*) buffer, (size_t) len);
     pData->metadata.buffer[len] = 0;
 
-- 
2.43.0


From 0fe159e73fe65a39af57031541d7187906435360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 66/89] fix: a DLS collection at an odd offset of a file can be
 loaded

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 74472ee..d2bafd0 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -812,8 +812,8 @@ static EAS_RESULT NextChunk (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 *pPos, EAS
     /* calculate start of next chunk */
     *pPos += *pSize + 8;
 
-    /* adjust to word boundary */
-    if (*pPos & 1)
+    /* adjust to word boundary, the collection may start at an odd offset */
+    if (*pSize & 1)
         (*pPos)++;
 
     return EAS_SUCCESS;
-- 
2.43.0


From a9bddc48e4dc7e03e8acb7102cc5cb4f0ac1220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 67/89] fix: JET_Init without a configuration uses the default
 one

---
 arm-wt-22k/lib_src/jet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index a2df5d1..8af396a 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -490,7 +490,10 @@ EAS_PUBLIC EAS_RESULT JET_Init (EAS_DATA_HANDLE easHandle, const S_JET_CONFIG *p
     if (easHandle->jetHandle != NULL)
         return EAS_ERROR_FEATURE_ALREADY_ACTIVE;
     if (pConfig == NULL)
+    {
         pConfig = &jetDefaultConfig;
+        configSize = sizeof(S_JET_CONFIG);
+    }
 
     /* allocate the JET data object */
     pJet = EAS_HWMalloc(easHandle->hwInstData, sizeof(S_JET_DATA));
-- 
2.43.0


From f9d3cd3fd9b872cd9245b18251141e7ecc01a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 68/89] fix: JET application events tell the track

---
 arm-wt-22k/lib_src/jet.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 8af396a..59e414c 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -1070,7 +1070,8 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
     if ((controller >= easHandle->jetHandle->config.appEventRangeLow) && (controller <= easHandle->jetHandle->config.appEventRangeHigh))
     {
 
-        event |= easHandle->jetHandle->segQueue[(segTrack & JET_EVENT_SEG_MASK) >> JET_EVENT_SEG_SHIFT].userID << JET_EVENT_SEG_SHIFT;
+        event |= (EAS_U32) easHandle->jetHandle->segQueue[(segTrack & JET_EVENT_SEG_MASK) >> JET_EVENT_SEG_SHIFT].userID << JET_EVENT_SEG_SHIFT;
+        event |= segTrack & JET_EVENT_TRACK_MASK;
 #ifdef DEBUG_JET
         JET_DumpEvent("JET_Event[app]", event);
 #endif
-- 
2.43.0


From d6c0f6de0c44c851a4a21b870800212f729eba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 69/89] fix: JET_CloseFile releases the DLS collections and
 resets the queue

---
 arm-wt-22k/lib_src/jet.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 59e414c..4e2f208 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -33,6 +33,7 @@
 
 #include "eas_data.h"
 #include "eas_smf.h"
+#include "eas_mdls.h"
 #include "jet_data.h"
 #include "eas_host.h"
 #include "eas_report.h"
@@ -413,7 +414,7 @@ EAS_PUBLIC EAS_RESULT JET_OpenFile (EAS_DATA_HANDLE easHandle, EAS_FILE_LOCATOR
 
     /* close file if something went wrong */
     if (result != EAS_SUCCESS)
-        EAS_HWCloseFile(easHandle->hwInstData, easHandle->jetHandle->jetFileHandle);
+        JET_CloseFile(easHandle);
 
     return result;
 }
@@ -449,18 +450,24 @@ EAS_RESULT JET_GetAppData (EAS_DATA_HANDLE easHandle, EAS_I32 *pAppDataOffset, E
 EAS_PUBLIC EAS_RESULT JET_CloseFile (EAS_DATA_HANDLE easHandle)
 {
     EAS_INT index;
-    EAS_RESULT result = EAS_SUCCESS;
+    EAS_RESULT result;
 
-    /* close open streams */
-    for (index = 0; index < SEG_QUEUE_DEPTH; index++)
+    /* stop playback and close open streams */
+    result = JET_Clear_Queue(easHandle);
+
+    /* release the DLS collections */
+    for (index = 0; index < JET_MAX_DLS_COLLECTIONS; index++)
     {
-        if (easHandle->jetHandle->segQueue[index].streamHandle != NULL)
+        if (easHandle->jetHandle->libHandles[index] != NULL)
         {
-            result = JET_CloseSegment(easHandle, index);
-            if (result != EAS_SUCCESS)
-                break;
+            DLSCleanup(easHandle->hwInstData, easHandle->jetHandle->libHandles[index]);
+            easHandle->jetHandle->libHandles[index] = NULL;
         }
     }
+    easHandle->jetHandle->numSegments = 0;
+    easHandle->jetHandle->numLibraries = 0;
+    easHandle->jetHandle->appDataOffset = 0;
+    easHandle->jetHandle->appDataSize = 0;
 
     /* close the main file handle */
     if ((result == EAS_SUCCESS) && (easHandle->jetHandle->jetFileHandle != NULL))
@@ -521,19 +528,10 @@ EAS_PUBLIC EAS_RESULT JET_Init (EAS_DATA_HANDLE easHandle, const S_JET_CONFIG *p
 EAS_PUBLIC EAS_RESULT JET_Shutdown (EAS_DATA_HANDLE easHandle)
 {
     EAS_RESULT result;
-    int i;
 
-    /* close any open files */
+    /* close any open files and release their data */
     result = JET_CloseFile(easHandle);
 
-    /* free allocated data */
-    for(i = 0 ; i < easHandle->jetHandle->numLibraries ; i++) {
-        if(easHandle->jetHandle->libHandles[i] != NULL) {
-            EAS_HWFree(easHandle->hwInstData, easHandle->jetHandle->libHandles[i]);
-            easHandle->jetHandle->libHandles[i] = NULL;
-        }
-    }
-
     EAS_HWFree(easHandle->hwInstData, easHandle->jetHandle);
     easHandle->jetHandle = NULL;
     return result;
-- 
2.43.0


From f5f7ea80a1ea39125a5fd2f6a92fbf1844891f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 70/89] fix: JET_QueueSegment refuses negative segment numbers
 and undoes a failed attempt

---
 arm-wt-22k/lib_src/jet.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 4e2f208..be14195 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -620,7 +620,7 @@ EAS_PUBLIC EAS_RESULT JET_QueueSegment (EAS_DATA_HANDLE easHandle, EAS_INT segme
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "JET_QueueSegment segNum=%d, queue=%d\n", segmentNum, easHandle->jetHandle->queueSegment); */ }
 
     /* make sure it's a valid segment */
-    if (segmentNum >= easHandle->jetHandle->numSegments)
+    if ((segmentNum < 0) || (segmentNum >= easHandle->jetHandle->numSegments))
         return EAS_ERROR_PARAMETER_RANGE;
 
     /* make sure it's a valid DLS */
@@ -640,10 +640,18 @@ EAS_PUBLIC EAS_RESULT JET_QueueSegment (EAS_DATA_HANDLE easHandle, EAS_INT segme
     p->muteFlags = muteFlags;
     p->state = JET_STATE_CLOSED;
 
+    /* create duplicate file handle for the stream */
+    result = EAS_HWDupHandle(easHandle->hwInstData, easHandle->jetHandle->jetFileHandle, &fileHandle);
+    if (result != EAS_SUCCESS)
+        return result;
+
     /* open the file */
-    result = EAS_OpenJETStream(easHandle, easHandle->jetHandle->jetFileHandle, easHandle->jetHandle->segmentOffsets[segmentNum], &p->streamHandle);
+    result = EAS_OpenJETStream(easHandle, fileHandle, easHandle->jetHandle->segmentOffsets[segmentNum], &p->streamHandle);
     if (result != EAS_SUCCESS)
+    {
+        EAS_HWCloseFile(easHandle->hwInstData, fileHandle);
         return result;
+    }
     p->state = JET_STATE_OPEN;
 
     /* if less than SEG_QUEUE_DEPTH segments queued up, prepare file for playback */
@@ -651,15 +659,12 @@ EAS_PUBLIC EAS_RESULT JET_QueueSegment (EAS_DATA_HANDLE easHandle, EAS_INT segme
     {
         result = JET_PrepareSegment(easHandle, easHandle->jetHandle->queueSegment);
         if (result != EAS_SUCCESS)
+        {
+            JET_CloseSegment(easHandle, easHandle->jetHandle->queueSegment);
             return result;
+        }
     }
 
-    /* create duplicate file handle */
-    result = EAS_HWDupHandle(easHandle->hwInstData, easHandle->jetHandle->jetFileHandle, &fileHandle);
-    if (result != EAS_SUCCESS)
-        return result;
-
-    easHandle->jetHandle->jetFileHandle = fileHandle;
     easHandle->jetHandle->queueSegment = (EAS_U8) JET_NextSegment(easHandle->jetHandle->queueSegment);
     return result;
 }
-- 
2.43.0


From 503ef9b03c03d9d1b065a16ad253e7fb95ce47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 71/89] fix: JET starts a segment that was not ready or not
 queued yet when the one before it ended

---
 arm-wt-22k/lib_src/jet.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index be14195..6f806bd 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -1007,6 +1007,24 @@ EAS_PUBLIC EAS_RESULT JET_Process (EAS_DATA_HANDLE easHandle)
             break;
     }
 
+    /* start the next segment if it was not ready or not queued yet when the one before it ended */
+    if (easHandle->jetHandle->flags & JET_FLAGS_PLAYING)
+    {
+        pSeg = &easHandle->jetHandle->segQueue[easHandle->jetHandle->playSegment];
+        if (pSeg->state == JET_STATE_OPEN)
+        {
+            result = JET_PrepareSegment(easHandle, easHandle->jetHandle->playSegment);
+            if (result != EAS_SUCCESS)
+                return result;
+        }
+        if (pSeg->state == JET_STATE_READY)
+        {
+            result = JET_StartPlayback(easHandle, easHandle->jetHandle->playSegment);
+            if (result != EAS_SUCCESS)
+                return result;
+        }
+    }
+
     /* if out of segments, clear playing flag */
     if (easHandle->jetHandle->numQueuedSegments == 0)
         easHandle->jetHandle->flags &= ~JET_FLAGS_PLAYING;
-- 
2.43.0


From a44dd0fb6fe1e381c1a033782d43248a261c71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 72/89] fix: a JET clip triggered while its track plays it
 untriggered is played

---
 arm-wt-22k/lib_src/jet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 6f806bd..a7f8d56 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -1068,6 +1068,12 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
                     easHandle->jetHandle->muteQueue[i] &= ~JET_CLIP_TRIGGER_FLAG;
                 }
 
+                /* triggered again during the clip, keep the trigger for the next clip */
+                else if (easHandle->jetHandle->muteQueue[i] & JET_CLIP_TRIGGER_FLAG)
+                {
+                    return;
+                }
+
                 /* mute the track */
                 else
                 {
-- 
2.43.0


From 5925ee48670f0728770c9d9138fda9a854ba9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 73/89] fix: JET clip 0 is not mistaken for an empty entry of
 the clip queue

---
 arm-wt-22k/lib_src/jet.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index a7f8d56..741b8e0 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -1055,7 +1055,8 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
         for (i = 0; i < JET_MUTE_QUEUE_SIZE; i++)
         {
             /* search for event in queue */
-            if ((easHandle->jetHandle->muteQueue[i] & JET_CLIP_ID_MASK) == (value & JET_CLIP_ID_MASK))
+            if ((easHandle->jetHandle->muteQueue[i] & JET_CLIP_ACTIVE_FLAG) &&
+                ((easHandle->jetHandle->muteQueue[i] & JET_CLIP_ID_MASK) == (value & JET_CLIP_ID_MASK)))
             {
                 /* get segment pointer and mute flag */
                 pSeg = &easHandle->jetHandle->segQueue[segTrack >> JET_EVENT_SEG_SHIFT];
-- 
2.43.0


From cefa59cacf70e5d3a68e76f54726314aac46e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 74/89] fix: JET mute flags for the next repeat are not applied
 by pausing and playing

---
 arm-wt-22k/lib_src/jet.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 741b8e0..c06989e 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -216,11 +216,13 @@ static EAS_RESULT JET_StartPlayback (EAS_DATA_HANDLE easHandle, EAS_I32 queueNum
     pSeg = &easHandle->jetHandle->segQueue[queueNum];
     if (pSeg->streamHandle != NULL)
     {
+        EAS_BOOL resumed = (pSeg->state == JET_STATE_PAUSED);
+
         result = EAS_Resume(easHandle, pSeg->streamHandle);
-        easHandle->jetHandle->segQueue[queueNum].state = JET_STATE_PLAYING;
+        pSeg->state = JET_STATE_PLAYING;
 
-        /* set mute flags */
-        if ((result == EAS_SUCCESS) && (pSeg->muteFlags != 0))
+        /* set mute flags, those of a segment that continues take effect with its next repeat */
+        if ((result == EAS_SUCCESS) && !resumed && (pSeg->muteFlags != 0))
             result = EAS_IntSetStrmParam(easHandle, pSeg->streamHandle, PARSER_DATA_MUTE_FLAGS, (EAS_I32) pSeg->muteFlags);
     }
     return result;
-- 
2.43.0


From 2ac5ee92514c70ba2d0975e88558e4f7ba50104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 75/89] fix: JET_Clear_Queue closes segments that have ended or
 failed

---
 arm-wt-22k/lib_src/jet.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index c06989e..902445a 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -1145,10 +1145,8 @@ EAS_RESULT JET_Clear_Queue(EAS_DATA_HANDLE easHandle)
     {
         if (easHandle->jetHandle->segQueue[index].state == JET_STATE_PLAYING)
         {
-            result = EAS_Pause(easHandle, easHandle->jetHandle->segQueue[index].streamHandle);
-            if (result != EAS_SUCCESS)
-                return result;
-
+            /* a stream that has just ended or failed cannot be paused, it is closed all the same */
+            EAS_Pause(easHandle, easHandle->jetHandle->segQueue[index].streamHandle);
             easHandle->jetHandle->segQueue[index].state = JET_STATE_PAUSED;
         }
     }
-- 
2.43.0


From 7f6fc72968f272211d8cc292a9a6c44ab9d93d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 76/89] fix: JET mute flags of the tracks from 31 on do not
 reach other tracks

---
 arm-wt-22k/lib_src/jet.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/jet.c b/arm-wt-22k/lib_src/jet.c
index 902445a..74b6534 100644
--- a/arm-wt-22k/lib_src/jet.c
+++ b/arm-wt-22k/lib_src/jet.c
@@ -800,7 +800,7 @@ EAS_PUBLIC EAS_RESULT JET_SetMuteFlag (EAS_DATA_HANDLE easHandle, EAS_INT trackN
     /* setup flag */
     if ((trackNum < 0) || (trackNum > 31))
         return EAS_ERROR_PARAMETER_RANGE;
-    trackMuteFlag = (1 << trackNum);
+    trackMuteFlag = (EAS_U32) 1 << trackNum;
 
     /* get pointer to current segment */
     pSeg = &easHandle->jetHandle->segQueue[easHandle->jetHandle->playSegment];
@@ -1052,6 +1052,7 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
     {
         S_JET_SEGMENT *pSeg;
         EAS_INT i;
+        EAS_U32 track;
         EAS_U32 muteFlag;
 
         for (i = 0; i < JET_MUTE_QUEUE_SIZE; i++)
@@ -1062,7 +1063,10 @@ void JET_Event (EAS_DATA_HANDLE easHandle, EAS_U32 segTrack, EAS_U8 channel, EAS
             {
                 /* get segment pointer and mute flag */
                 pSeg = &easHandle->jetHandle->segQueue[segTrack >> JET_EVENT_SEG_SHIFT];
-                muteFlag = 1 << ((segTrack & JET_EVENT_TRACK_MASK) >> JET_EVENT_TRACK_SHIFT);
+                track = (segTrack & JET_EVENT_TRACK_MASK) >> JET_EVENT_TRACK_SHIFT;
+                if (track >= 8 * sizeof(EAS_U32))
+                    return;
+                muteFlag = (EAS_U32) 1 << track;
 
                 /* un-mute the track */
                 if ((easHandle->jetHandle->muteQueue[i] & JET_CLIP_TRIGGER_FLAG) && ((value & 0x40) > 0))
-- 
2.43.0


From 058ab4e29690c2b41dd3b808d44f133c941193e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:47 +0000
Subject: [PATCH 77/89] fix: JET events of the tracks from 64 on are not taken
 for those of another segment

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4fcb8eb..eab47f9 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -640,7 +640,8 @@ EAS_RESULT SMF_SetData (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_I32 pa
                 EAS_U32 i;
                 EAS_U32 bit = (EAS_U32) value;
                 bit = (bit << JET_EVENT_SEG_SHIFT) & JET_EVENT_SEG_MASK;
-                for (i = 0; i < pSMFData->numStreams; i++)
+                /* an event can tell 64 tracks apart, those beyond have no callback */
+                for (i = 0; (i < pSMFData->numStreams) && (i <= (JET_EVENT_TRACK_MASK >> JET_EVENT_TRACK_SHIFT)); i++)
                     pSMFData->streams[i].midiStream.jetData =
                         (pSMFData->streams[i].midiStream.jetData &
                         ~(JET_EVENT_TRACK_MASK | JET_EVENT_SEG_MASK)) |
-- 
2.43.0


From bc7b65d9ef7e072b7d20056af69288ad8df51245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 78/89] fix: WAVE files take the volume and playback rate
 before EAS_Prepare and keep the rate on repeat

---
 arm-wt-22k/lib_src/eas_wavefile.c | 27 ++++++++++++++++++++-------
 arm-wt-22k/lib_src/eas_wavefile.h |  1 +
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index f24bde2..9aed837 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -199,7 +199,8 @@ static EAS_RESULT WavePrepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     if ((result = WaveParseHeader(pEASData, pWaveData->fileHandle, pWaveData)) != EAS_SUCCESS)
         return result;
 
-    return EAS_SUCCESS;
+    /* restore the playback rate */
+    return EAS_PEUpdatePitch(pEASData, pWaveData->streamHandle, pWaveData->pitch);
 }
 
 /*----------------------------------------------------------------------------
@@ -307,13 +308,18 @@ static EAS_RESULT WaveClose (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 */
 static EAS_RESULT WaveReset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 {
-    EAS_PCM_HANDLE streamHandle;
+    S_WAVE_STATE *pWaveData = (S_WAVE_STATE*) pInstData;
+    EAS_RESULT result;
+
+    if (pWaveData->streamHandle == NULL)
+        return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
     /* reset to first byte of data in the stream */
-    streamHandle = ((S_WAVE_STATE*)pInstData)->streamHandle;
-    if (streamHandle)
-        return EAS_PEReset(pEASData, streamHandle);
-    return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+    if ((result = EAS_PEReset(pEASData, pWaveData->streamHandle)) != EAS_SUCCESS)
+        return result;
+
+    /* restore the playback rate */
+    return EAS_PEUpdatePitch(pEASData, pWaveData->streamHandle, pWaveData->pitch);
 }
 
 /*----------------------------------------------------------------------------
@@ -436,9 +442,16 @@ static EAS_RESULT WaveSetData (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS
 
         case PARSER_DATA_PLAYBACK_RATE:
             value = (EAS_I32) (PITCH_CENTS_CONVERSION * log10((double) value / (double) (1 << 28)));
-            return EAS_PEUpdatePitch(pEASData, pWaveData->streamHandle, (EAS_I16) value);
+            /* remember it, the PCM engine forgets it when the stream is opened or reset */
+            pWaveData->pitch = (EAS_I16) value;
+            if (pWaveData->streamHandle == NULL)
+                return EAS_SUCCESS;
+            return EAS_PEUpdatePitch(pEASData, pWaveData->streamHandle, pWaveData->pitch);
 
         case PARSER_DATA_VOLUME:
+            /* the volume is set again when the stream is opened */
+            if (pWaveData->streamHandle == NULL)
+                return EAS_SUCCESS;
             return EAS_PEUpdateVolume(pEASData, pWaveData->streamHandle, (EAS_I16) value);
 
         default:
diff --git a/arm-wt-22k/lib_src/eas_wavefile.h b/arm-wt-22k/lib_src/eas_wavefile.h
index f8814a8..6f15568 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.h
+++ b/arm-wt-22k/lib_src/eas_wavefile.h
@@ -52,6 +52,7 @@ typedef struct s_wave_state_tag
     EAS_U32         audioSize;
     EAS_U32         flags;
     EAS_I16         fileType;
+    EAS_I16         pitch;
 #ifdef MMAPI_SUPPORT
     EAS_VOID_PTR    fmtChunk;
 #endif
-- 
2.43.0


From cb418581b004a7bbd863ea9820ef235ea743164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 79/89] fix: the length of a WAVE file without a byte rate is
 unknown

---
 arm-wt-22k/lib_src/eas_wavefile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index 9aed837..46db510 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -676,10 +676,13 @@ static EAS_RESULT WaveParseHeader (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHan
                 {
                     params.size = (EAS_I32) size;
                     params.loopStart = size;
+                    /* media length is unknown if the byte rate is missing or out of range */
+                    if (avgBytesPerSec == 0)
+                        break;
                     /* use more accurate method if possible */
                     if (size <= (0x7fffffff / 1000))
                         pWaveData->mediaLength = (EAS_I32) ((size * 1000) / avgBytesPerSec);
-                    else
+                    else if (avgBytesPerSec >= 1000)
                         pWaveData->mediaLength = (EAS_I32) (size / (avgBytesPerSec / 1000));
                 }
                 break;
-- 
2.43.0


From 570b27f352c3fa980605b041e617c1910883cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 80/89] fix: reading the metadata of a broken WAVE INFO chunk
 ends and asks for a registered callback

---
 arm-wt-22k/lib_src/eas_wavefile.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index 46db510..55602c3 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -785,18 +785,18 @@ static EAS_RESULT WaveGetMetaData (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData,
     infoSize = pWaveData->infoChunkSize;
 
     /* read all the chunks in the INFO chunk */
-    for (;;)
+    while (infoSize >= 8)
     {
 
         /* seek to next chunk */
         if ((result = EAS_HWFileSeek(pEASData->hwInstData, pWaveData->fileHandle, pos)) != EAS_SUCCESS)
-            return result;
+            break;
 
         /* get tag and size for next chunk */
-        if ((result = EAS_HWGetDWord(pEASData->hwInstData, pWaveData->fileHandle, &tag, EAS_TRUE)) != EAS_FALSE)
-            return result;
-        if ((result = EAS_HWGetDWord(pEASData->hwInstData, pWaveData->fileHandle, &size, EAS_FALSE)) != EAS_FALSE)
-            return result;
+        if ((result = EAS_HWGetDWord(pEASData->hwInstData, pWaveData->fileHandle, &tag, EAS_TRUE)) != EAS_SUCCESS)
+            break;
+        if ((result = EAS_HWGetDWord(pEASData->hwInstData, pWaveData->fileHandle, &size, EAS_FALSE)) != EAS_SUCCESS)
+            break;
 
         /* process chunk */
         pos += 8;
@@ -821,14 +821,19 @@ static EAS_RESULT WaveGetMetaData (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData,
                 break;
         }
 
-        /* process known metadata */
-        if (metaType != EAS_METADATA_UNKNOWN)
+        /* the block has to fit into what is left of the INFO chunk */
+        infoSize -= 8;
+        if (size > (EAS_U32) infoSize)
+            size = (EAS_U32) infoSize;
+
+        /* process known metadata, if the host wants it */
+        if ((metaType != EAS_METADATA_UNKNOWN) && (pWaveData->metadata.callback != NULL) && (pWaveData->metadata.bufferSize > 0))
         {
             metaLen = pWaveData->metadata.bufferSize - 1;
             if (metaLen > (EAS_I32) size)
                 metaLen = (EAS_I32) size;
             if ((result = EAS_HWReadFile(pEASData->hwInstData, pWaveData->fileHandle, pWaveData->metadata.buffer, metaLen, &metaLen)) != EAS_SUCCESS)
-                return result;
+                break;
             pWaveData->metadata.buffer[metaLen] = 0;
             pWaveData->metadata.callback(metaType, pWaveData->metadata.buffer, pWaveData->metadata.pUserData);
         }
@@ -836,14 +841,11 @@ static EAS_RESULT WaveGetMetaData (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData,
         /* subtract this block */
         if (size & 1)
             size++;
-        infoSize -= (EAS_I32) size + 8;
-        if (infoSize == 0)
-            break;
+        infoSize -= (EAS_I32) size;
         pos += (EAS_I32) size;
     }
 
-
-    /* restore original position */
+    /* restore original position, also if the INFO chunk is broken */
     return EAS_HWFileSeek(pEASData->hwInstData, pWaveData->fileHandle, restorePos);
 }
 
-- 
2.43.0


From a72181bde490cb199684e8c1a202de5df0dc11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 81/89] fix: the step index of an IMA ADPCM block is limited to
 the step table

---
 arm-wt-22k/lib_src/eas_imaadpcm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_imaadpcm.c b/arm-wt-22k/lib_src/eas_imaadpcm.c
index 41280b5..f946298 100644
--- a/arm-wt-22k/lib_src/eas_imaadpcm.c
+++ b/arm-wt-22k/lib_src/eas_imaadpcm.c
@@ -148,6 +148,8 @@ static EAS_RESULT IMADecoderSample (EAS_DATA_HANDLE pEASData, S_PCM_STATE *pStat
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_DETAIL, "Step: Was %d, now %d\n", pState->decoderL.step, sTemp); */ }
 #endif
             pState->decoderL.step = sTemp & 0xff;
+            if (pState->decoderL.step > 88)
+                pState->decoderL.step = 88;
 
             if (pState->flags & PCM_FLAGS_STEREO)
             {
@@ -163,6 +165,8 @@ static EAS_RESULT IMADecoderSample (EAS_DATA_HANDLE pEASData, S_PCM_STATE *pStat
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_DETAIL, "Step: Was %d, now %d\n", pState->decoderR.step, sTemp); */ }
 #endif
                 pState->decoderR.step = sTemp & 0xff;
+                if (pState->decoderR.step > 88)
+                    pState->decoderR.step = 88;
 
                 pState->blockCount = pState->blockSize - 8;
                 pState->bytesLeft -= 8;
-- 
2.43.0


From d64abda962fa615016503ce84fc95ef46113ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 82/89] fix: WAVE files with an absurd sample rate are refused,
 rates above 65535 Hz can be located in

---
 arm-wt-22k/lib_src/eas_pcm.c      | 2 +-
 arm-wt-22k/lib_src/eas_pcmdata.h  | 2 +-
 arm-wt-22k/lib_src/eas_wavefile.c | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_pcm.c b/arm-wt-22k/lib_src/eas_pcm.c
index ff3f6f9..8a3ba55 100644
--- a/arm-wt-22k/lib_src/eas_pcm.c
+++ b/arm-wt-22k/lib_src/eas_pcm.c
@@ -368,7 +368,7 @@ EAS_RESULT EAS_PEOpenStream (S_EAS_DATA *pEASData, S_PCM_OPEN_PARAMS *pParams, E
     pState->flags = pParams->flags;
     pState->envData = pParams->envData;
     pState->volume = pParams->volume;
-    pState->sampleRate = (EAS_U16) pParams->sampleRate;
+    pState->sampleRate = pParams->sampleRate;
 
     /* set the base frequency */
     pState->basefreq = (SRC_RATE_MULTIPLER * (EAS_U32) pParams->sampleRate) >> 15;
diff --git a/arm-wt-22k/lib_src/eas_pcmdata.h b/arm-wt-22k/lib_src/eas_pcmdata.h
index ae18d6d..62cfb58 100644
--- a/arm-wt-22k/lib_src/eas_pcmdata.h
+++ b/arm-wt-22k/lib_src/eas_pcmdata.h
@@ -110,7 +110,7 @@ typedef struct s_pcm_state_tag
     EAS_I16             currentGainRight;   /* current gain for anti-zipper filter */
     EAS_U16             blockSize;          /* block size for ADPCM decoder */
     EAS_U16             blockCount;         /* block counter for ADPCM decoder */
-    EAS_U16             sampleRate;         /* input sample rate */
+    EAS_U32             sampleRate;         /* input sample rate */
     EAS_U8              srcByte;            /* source byte */
     EAS_U8              msBitCount;         /* count keeps track of MS bits */
     EAS_U8              msBitMask;          /* mask keeps track of MS bits */
diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index 55602c3..7ec3030 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -41,6 +41,9 @@ extern double log10(double x);
 /* increase gain to compensate for loss in mixer */
 #define WAVE_GAIN_OFFSET            6
 
+/* highest sample rate that is played */
+#define WAVE_MAX_SAMPLE_RATE        192000
+
 /* constant for 1200 / log10(2.0) */
 #define PITCH_CENTS_CONVERSION      3986.313714
 
@@ -633,6 +636,8 @@ static EAS_RESULT WaveParseHeader (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHan
                 /* get sample rate */
                 if ((result = EAS_HWGetDWord(pEASData->hwInstData, fileHandle, &params.sampleRate, EAS_FALSE)) != EAS_FALSE)
                     return result;
+                if (params.sampleRate > WAVE_MAX_SAMPLE_RATE)
+                    return EAS_ERROR_UNRECOGNIZED_FORMAT;
 
                 /* get stream rate */
                 if ((result = EAS_HWGetDWord(pEASData->hwInstData, fileHandle, &avgBytesPerSec, EAS_FALSE)) != EAS_FALSE)
-- 
2.43.0


From d278276615df7ff09206b4067d7a8479d5b978a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 83/89] fix: a WAVE file that was not prepared is closed

---
 arm-wt-22k/lib_src/eas_wavefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index 7ec3030..d29a392 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -275,6 +275,10 @@ static EAS_RESULT WaveClose (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         pWaveData->streamHandle = NULL;
     }
 
+    /* no stream, nobody else closes the file */
+    else if ((result = EAS_HWCloseFile(pEASData->hwInstData, pWaveData->fileHandle)) != EAS_SUCCESS)
+        return result;
+
     /* if using dynamic memory, free it */
     if (!pEASData->staticMemoryModel)
     {
-- 
2.43.0


From d99066e0a25b4e68d2a3553e35f748200e5efa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 84/89] fix: a WAVE file that ends before its data do stops
 there, and a stream that cannot be read stops alone

---
 arm-wt-22k/lib_src/eas_pcm.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_pcm.c b/arm-wt-22k/lib_src/eas_pcm.c
index 8a3ba55..c12a39c 100644
--- a/arm-wt-22k/lib_src/eas_pcm.c
+++ b/arm-wt-22k/lib_src/eas_pcm.c
@@ -206,15 +206,17 @@ EAS_RESULT EAS_PEShutdown (S_EAS_DATA *pEASData)
 EAS_RESULT EAS_PERender (S_EAS_DATA* pEASData, EAS_I32 numSamples)
 {
     S_PCM_STATE *pState;
-    EAS_RESULT result;
     EAS_INT i;
 
     /* render all the active streams */
     for (i = 0, pState = pEASData->pPCMStreams; i < MAX_PCM_STREAMS; i++, pState++)
     {
-        if ((pState->fileHandle) && (pState->state != EAS_STATE_STOPPED) && (pState->state != EAS_STATE_PAUSED))
-            if ((result = RenderPCMStream(pEASData, pState, numSamples)) != EAS_SUCCESS)
-                return result;
+        if ((pState->fileHandle) && (pState->state != EAS_STATE_STOPPED) && (pState->state != EAS_STATE_PAUSED) && (pState->state != EAS_STATE_ERROR))
+        {
+            /* a stream that cannot be read ends, the others go on */
+            if (RenderPCMStream(pEASData, pState, numSamples) != EAS_SUCCESS)
+                pState->state = EAS_STATE_ERROR;
+        }
     }
     return EAS_SUCCESS;
 }
@@ -1194,7 +1196,16 @@ static EAS_RESULT RenderPCMStream (S_EAS_DATA *pEASData, S_PCM_STATE *pState, EA
             }
 
             /* decode the next sample */
-            if ((result = (*pState->pDecoder->pfDecodeSample)(pEASData, pState)) != EAS_SUCCESS)
+            result = (*pState->pDecoder->pfDecodeSample)(pEASData, pState);
+
+            /* the file ends before its data do, or at an unknown point, so the stream ends here */
+            if (result == EAS_EOF)
+            {
+                pState->bytesLeft = 0;
+                pState->loopSamples = 0;
+                pState->decoderL.x1 = pState->decoderR.x1 = 0;
+            }
+            else if (result != EAS_SUCCESS)
                 return result;
 
             /* adjust phase by one sample */
-- 
2.43.0


From 7a4840de32f0b86989b5034d083e4e27ab139b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 85/89] fix: the last format chunk of a WAVE file counts

---
 arm-wt-22k/lib_src/eas_wavefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index d29a392..b9d06d4 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -632,6 +632,7 @@ static EAS_RESULT WaveParseHeader (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHan
                 /* get number of channels */
                 if ((result = EAS_HWGetWord(pEASData->hwInstData, fileHandle, &usTemp, EAS_FALSE)) != EAS_FALSE)
                     return result;
+                pWaveData->flags &= ~(PCM_FLAGS_STEREO | PCM_FLAGS_8_BIT | PCM_FLAGS_UNSIGNED);
                 if (usTemp == 2)
                     pWaveData->flags |= PCM_FLAGS_STEREO;
                 else if (usTemp != 1)
-- 
2.43.0


From 3b3fff32c93479d8fddb5b493a440a3ffe5419e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 86/89] fix: an incomplete sample at the end of a WAVE file is
 not played, streamed WAVE files can be located in

---
 arm-wt-22k/lib_src/eas_wavefile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index b9d06d4..1f9e90b 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -555,6 +555,7 @@ static EAS_RESULT WaveParseHeader (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHan
     params.fileHandle = fileHandle;
     params.volume = 0x7fff;
     params.envData = 0;
+    params.loopStart = 0x7fffffff;
     avgBytesPerSec = 8000;
 
     /* check for 'RIFF' tag */
@@ -746,6 +747,18 @@ static EAS_RESULT WaveParseHeader (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHan
     if ((params.sampleRate == 0) || (params.size == 0))
         return EAS_ERROR_UNRECOGNIZED_FORMAT;
 
+    /* an incomplete sample at the end is not played */
+    if ((params.decoder == EAS_DECODER_PCM) && ((pWaveData->flags & PCM_FLAGS_STREAMING) == 0))
+    {
+        size = (pWaveData->flags & PCM_FLAGS_8_BIT) ? 1 : 2;
+        if (pWaveData->flags & PCM_FLAGS_STEREO)
+            size <<= 1;
+        params.size -= (EAS_I32) ((EAS_U32) params.size % size);
+        params.loopStart = (EAS_U32) params.size;
+        if (params.size == 0)
+            return EAS_ERROR_UNRECOGNIZED_FORMAT;
+    }
+
     /* save the pertinent information */
     pWaveData->audioOffset = audioOffset;
     params.flags = pWaveData->flags;
-- 
2.43.0


From 8be2d63390049f7d768073386c993760d88b6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 87/89] fix: IMA ADPCM data that end within a block header end
 there

---
 arm-wt-22k/lib_src/eas_imaadpcm.c | 4 ++++
 arm-wt-22k/lib_src/eas_wavefile.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_imaadpcm.c b/arm-wt-22k/lib_src/eas_imaadpcm.c
index f946298..6cc545c 100644
--- a/arm-wt-22k/lib_src/eas_imaadpcm.c
+++ b/arm-wt-22k/lib_src/eas_imaadpcm.c
@@ -129,6 +129,10 @@ static EAS_RESULT IMADecoderSample (EAS_DATA_HANDLE pEASData, S_PCM_STATE *pStat
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_DETAIL, "IMADecoderSample: Rewind file to %d, bytesLeft = %d\n", pState->startPos, pState->bytesLeft); */ }
         }
 
+        /* less than a block header is left, there are no more samples */
+        if ((pState->blockSize != 0) && (pState->blockCount == 0) && (pState->bytesLeft < ((pState->flags & PCM_FLAGS_STEREO) ? 8 : 4)))
+            pState->bytesLeft = 0;
+
         /* if start of block, fetch new predictor and step index */
         if ((pState->blockSize != 0) && (pState->blockCount == 0) && (pState->bytesLeft != 0))
         {
diff --git a/arm-wt-22k/lib_src/eas_wavefile.c b/arm-wt-22k/lib_src/eas_wavefile.c
index 1f9e90b..e92e82c 100644
--- a/arm-wt-22k/lib_src/eas_wavefile.c
+++ b/arm-wt-22k/lib_src/eas_wavefile.c
@@ -672,6 +672,10 @@ static EAS_RESULT WaveParseHeader (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHan
                 {
                     if ((usTemp != 4) || (pWaveData->flags & PCM_FLAGS_STEREO))
                         return EAS_ERROR_UNRECOGNIZED_FORMAT;
+
+                    /* a block begins with a header of 4 bytes */
+                    if ((params.blockSize != 0) && (params.blockSize < 4))
+                        return EAS_ERROR_UNRECOGNIZED_FORMAT;
                 }
 
                 break;
-- 
2.43.0


From a12c79cc9409ab7468ac5436fcaa3fe21ec59042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 88/89] fix: the length of a file that starts with a setup bar
 leaves the bar out

---
 arm-wt-22k/lib_src/eas_midi.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index b5dd043..0da2236 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -128,8 +128,6 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
             /* deal with SysEx */
             if ((c == 0xf7) || (c == 0xf0))
             {
-                if (parserMode == eParserModeMetaData)
-                    return EAS_SUCCESS;
                 return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
             }
 
@@ -149,7 +147,12 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
         pMIDIStream->byte3 = EAS_FALSE;
         pMIDIStream->pending = EAS_FALSE;
         if (parserMode == eParserModeMetaData)
+        {
+            /* the first note ends the setup bar */
+            if (((pMIDIStream->status & 0xf0) == 0x90) && pMIDIStream->d2)
+                pMIDIStream->flags |= MIDI_FLAG_FIRST_NOTE;
             return EAS_SUCCESS;
+        }
         return ProcessMIDIMessage(pEASData, pSynth, pMIDIStream, parserMode);
     }
 
@@ -191,8 +194,6 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
         /* SysEx message? */
         if (pMIDIStream->status == 0xF0)
         {
-            if (parserMode == eParserModeMetaData)
-                return EAS_SUCCESS;
             return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
         }
 
@@ -403,9 +404,9 @@ static EAS_RESULT ProcessSysExMessage (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_
             if ((c == 1) || (c == 3))
             {
                 /* GM 1 or GM2 On, reset synth */
+                pMIDIStream->flags |= MIDI_FLAG_GM_ON;
                 if (parserMode != eParserModeMetaData)
                 {
-                    pMIDIStream->flags |= MIDI_FLAG_GM_ON;
                     VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE);
                     VMInitMIPTable(pSynth);
                 }
-- 
2.43.0


From b8a89c95cc22955cac20fd94be4a43390bd1192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:02 +0000
Subject: [PATCH 89/89] fix: DLS conditions are evaluated in 32 bits

---
 arm-wt-22k/lib_src/eas_mdls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index d2bafd0..b1bdb7b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2230,7 +2230,7 @@ static EAS_RESULT PushcdlStack (EAS_U32 *pStack, EAS_INT *pStackPtr, EAS_U32 val
 
     /* push the value onto the stack */
     *pStackPtr = *pStackPtr + 1;
-    pStack[*pStackPtr] = value;
+    pStack[*pStackPtr] = value & 0xffffffff;
     return EAS_SUCCESS;
 }
 
-- 
2.43.0

