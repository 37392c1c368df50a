From fd123948ca6e3d234fa83743d9c23b6f7a1a7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 01/42] fix: resume a partial send() at the right offset in
 RKNetworkSendPackets

---
 source/RKNetwork.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..38651e1 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -32,19 +32,21 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        while (totalSentSize < payloadSize && timeout_count < RKNetworkTimeoutSeconds / 10) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
             if (totalSentSize < payloadSize) {
+                timeout_count++;
                 usleep(10000);
-            } else if (sentSize < 0) {
-                RKLog("RKNetworkSendPackets Unable to send()\n");
-                return -RKResultIncompleteSend;
             }
         }
+        if (totalSentSize < payloadSize) {
+            // Never follow an incomplete payload with the next one
+            va_end(arg);
+            return -RKResultTimeout;
+        }
         grandTotalSentSize += totalSentSize;
         //RKLog("RKNetworkSendPackets : grandTotalSentSize = %d\n", (int)grandTotalSentSize);
         payload = va_arg(arg, void *);
@@ -52,9 +54,6 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
 
     va_end(arg);
 
-    if (timeout_count >= RKNetworkTimeoutSeconds / 10) {
-        return -RKResultTimeout;
-    }
     return grandTotalSentSize;
 }
 
-- 
2.43.0


From 86aec9dcae3bf63b9f6bf9f4a4426cc98ae189a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 02/42] fix: resume a partial send() at the right offset in
 RKOperatorSendPackets

---
 source/RKServer.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..3353e76 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -755,19 +755,22 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        while (totalSentSize < payloadSize && timeout_count < RKSocketTimeCountOf10ms) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
             if (totalSentSize < payloadSize) {
+                timeout_count++;
                 usleep(1000);
-            } else if (sentSize < 0) {
-                pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
             }
         }
+        if (totalSentSize < payloadSize) {
+            // Never follow an incomplete payload with the next one
+            va_end(arg);
+            pthread_mutex_unlock(&O->lock);
+            return -RKResultTimeout;
+        }
         grandTotalSentSize += totalSentSize;
         payload = va_arg(arg, void *);
     }
@@ -776,10 +779,6 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     pthread_mutex_unlock(&O->lock);
 
-    if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
-    }
-
     return grandTotalSentSize;
 }
 
-- 
2.43.0


From 18f946d0c6536f57d895296beaab6db957ba4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 03/42] fix: pass the variadic payload size as ssize_t in
 RKOperatorSendDelimitedString/CommandResponse

---
 source/RKServer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 3353e76..b4049ff 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -789,13 +789,13 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
     O->delimString.type = RKNetworkPacketTypePlainText;
     O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, (ssize_t)O->delimString.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
     O->delimString.type = RKNetworkPacketTypeCommandResponse;
     O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, (ssize_t)O->delimString.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
-- 
2.43.0


From 1e6b867a0a3a7a4921069333e131a17e1c7a5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 04/42] fix: resume a partial delimiter read at a byte offset
 in RKServerReceiveUserPayload

---
 source/RKServer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index b4049ff..8087bcc 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -602,7 +602,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                if ((r = read(O->sid, delimiter->bytes + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
                         if (k == sizeof(RKNetDelimiter)) {
-- 
2.43.0


From 2c24728590349458a8ad566f114fa4c1f8b4de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 05/42] fix: do not report a payload that stalled midway as
 received in RKServerReceiveUserPayload

---
 source/RKServer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 8087bcc..72241a9 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -667,7 +667,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < delimiter->size) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
@@ -704,7 +704,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < blockLength) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
-- 
2.43.0


From 5972b6219510faa5c10597c896d9beaae532cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 06/42] Loop contracts on the packet send and receive loops
 (guarded by RK_CONTRACTS)

---
 headers/RadarKit/RKTypes.h |  7 +++++++
 source/RKNetwork.c         |  8 +++++++-
 source/RKServer.c          | 25 ++++++++++++++++++++++---
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index dd903f1..e0f4157 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -37,6 +37,13 @@
 
 #include <RadarKit/RKVersion.h>
 
+// Contracts for deductive verification with CBMC. They vanish unless RK_CONTRACTS is defined
+#if defined(RK_CONTRACTS)
+#define RKContract(...) __VA_ARGS__
+#else
+#define RKContract(...)
+#endif
+
 //
 // Memory Blocks
 // Defines the number of slots and gates of each pulse of the RKRadar structure
diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 38651e1..3174fa7 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -33,7 +33,13 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count < RKNetworkTimeoutSeconds / 10) {
+        while (totalSentSize < payloadSize && timeout_count < RKNetworkTimeoutSeconds / 10)
+        RKContract(
+            __CPROVER_assigns(sentSize, totalSentSize, timeout_count, RK_GHOST_SEND_FRAME)
+            __CPROVER_loop_invariant(0 <= totalSentSize && totalSentSize <= payloadSize)
+            __CPROVER_loop_invariant(0 <= timeout_count && timeout_count <= RKNetworkTimeoutSeconds / 10)
+            __CPROVER_loop_invariant(RK_GHOST_SENT == grandTotalSentSize + totalSentSize)
+        ) {
             if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
diff --git a/source/RKServer.c b/source/RKServer.c
index 72241a9..792fa1d 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -601,7 +601,13 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             //RKNetworkread
             k = 0;
             readCount = 0;
-            while (readCount++ < O->timeoutSeconds * 100) {
+            while (readCount++ < O->timeoutSeconds * 100)
+            RKContract(
+                __CPROVER_assigns(r, k, readCount, O->delimRx, RK_GHOST_RECEIVE_FRAME)
+                __CPROVER_loop_invariant(0 <= k && k <= (int)sizeof(RKNetDelimiter) && RK_GHOST_RECEIVED == k)
+                __CPROVER_loop_invariant(0 <= readCount && readCount <= O->timeoutSeconds * 100)
+                __CPROVER_loop_invariant(RK_GHOST_DELIMITER_PREFIX(O->delimRx.bytes, k))
+            ) {
                 if ((r = read(O->sid, delimiter->bytes + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
@@ -645,7 +651,14 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             // Now the actual payload
             k = 0;
             readCount = 0;
-            while (readCount++ < M->timeoutSeconds * 100) {
+            while (readCount++ < M->timeoutSeconds * 100)
+            RKContract(
+                __CPROVER_assigns(r, k, readCount, RK_GHOST_RECEIVE_FRAME, __CPROVER_object_whole(buffer))
+                __CPROVER_loop_invariant(0 <= k && k < delimiter->size)
+                __CPROVER_loop_invariant(RK_GHOST_RECEIVED == sizeof(RKNetDelimiter) + k)
+                __CPROVER_loop_invariant(0 <= readCount && readCount <= M->timeoutSeconds * 100)
+                __CPROVER_loop_invariant(RK_GHOST_PAYLOAD_PREFIX(buffer, k))
+            ) {
                 if ((r = (int)read(O->sid, buffer + k, delimiter->size - k)) > 0) {
                     k += r;
                     if (k >= delimiter->size) {
@@ -756,7 +769,13 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count < RKSocketTimeCountOf10ms) {
+        while (totalSentSize < payloadSize && timeout_count < RKSocketTimeCountOf10ms)
+        RKContract(
+            __CPROVER_assigns(sentSize, totalSentSize, timeout_count, RK_GHOST_SEND_FRAME)
+            __CPROVER_loop_invariant(0 <= totalSentSize && totalSentSize <= payloadSize)
+            __CPROVER_loop_invariant(0 <= timeout_count && timeout_count <= RKSocketTimeCountOf10ms)
+            __CPROVER_loop_invariant(RK_GHOST_SENT == grandTotalSentSize + totalSentSize)
+        ) {
             if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
-- 
2.43.0


From 413ec8242622d2b1c68e8ac7e68fe318f87f16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 07/42] fix: a starting sector sweep overwrote the elevation
 standby and left two azimuth instructions

---
 source/RKSteerEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..74b43a5 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -712,8 +712,8 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
-                    action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
-                    action->value[0] = scan->azimuthSlew;
+                    action->mode[a] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
+                    action->value[a] = scan->azimuthSlew;
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for SEC sweep %d - EL %.1f° @ crossover AZ %.1f°\n", engine->name,
-- 
2.43.0


From 0bbd85d3b5bb41f9d889d771fc0f47fb415810a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 08/42] fix: a starting RHI sweep overwrote the azimuth standby

---
 source/RKSteerEngine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 74b43a5..ee48865 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -625,6 +625,11 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                    if (a == 0) {
+                        // Keep the azimuth standby, if there is one
+                        action->mode[1] = action->mode[0];
+                        action->value[1] = action->value[0];
+                    }
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisElevation;
                     action->value[0] = scan->elevationSlew;
                     V->tic = 0;
-- 
2.43.0


From 1f25cace8eef4638ced57cd1d4b443cb37b5a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 09/42] fix: sector and RHI sweeps could end while still being
 positioned when they follow a sector or PPI sweep

---
 source/RKSteerEngine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index ee48865..e4aa721 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -584,6 +584,11 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
 
     const RKScanPath *scan = &V->batterScans[V->i];
 
+    // Only a PPI sweep may collect data while it is being set up
+    if (V->progress & RKScanProgressSetup && scan->mode != RKScanModePPI) {
+        V->progress &= ~RKScanProgressMiddle;
+    }
+
     if (V->progress == RKScanProgressNone) {
         V->progress = RKScanProgressSetup;
         switch (scan->mode) {
-- 
2.43.0


From 45a0355e7e482d25f53ad1436a15166859b4d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 10/42] fix: a scan started right after a stop request left the
 steering engine stuck

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index e4aa721..a0aff6f 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -535,7 +535,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
 
     bool cross = false;
 
-    if (V->active == false || V->sweepCount == 0) {
+    if (V->active == false || V->sweepCount == 0 || V->progress & RKScanProgressStopPedestal) {
         if (V->progress & RKScanProgressStopPedestal) {
             RKLog("%s Stopping pedestal ...\n", engine->name);
             if (fabs(pos->elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-- 
2.43.0


From 581115d0fe84875a13d7356adef89c35de250d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 11/42] fix: RKSteerEngineAddLineupSweep could write past the
 on-deck list

---
 source/RKSteerEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index a0aff6f..75ecb64 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -135,11 +135,11 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
     RKScanObject *V = &engine->vcpHandle;
-    if (V->inTheHoleCount < RKMaximumScanCount) {
+    if (V->inTheHoleCount < RKMaximumScanCount && V->onDeckCount < RKMaximumScanCount) {
         V->inTheHoleScans[V->inTheHoleCount++] = scan;
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d\n", engine->name, V->inTheHoleCount);
+        RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d   V->onDeckCount = %d\n", engine->name, V->inTheHoleCount, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
-- 
2.43.0


From 1e8025ac4aa0e15415129c4f677e728d2730cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 12/42] fix: the first sweep of a volume brought up by 'next'
 was never positioned

---
 source/RKSteerEngine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 75ecb64..608aa1e 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -965,6 +965,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             break;
         case RKSteerCommandScanNext:
             RKSteerEngineNextHitter(engine);
+            engine->vcpHandle.progress = RKScanProgressNone;
             sprintf(response, "ACK. Volume advanced." RKEOL);
             return RKResultSuccess;
             break;
-- 
2.43.0


From 0351140a145ba877bb37af201414229333ac3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 13/42] fix: RKSteerCommandFromString read an uninitialized
 token for a blank string

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 608aa1e..54f4a1a 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -880,7 +880,7 @@ RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
     RKSteerCommand type = RKSteerCommandNone;
-    if (s == 0) {
+    if (s <= 0) {
         return type;
     } else if (!strcmp(token, "home")) {
         type = RKSteerCommandHome | RKSteerCommandImmediate;
-- 
2.43.0


From 1f9dace84b861a7d3ad11cb30e7338468a37e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 14/42] fix: a volume command without arguments dereferenced
 NULL

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 54f4a1a..25aff14 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1020,6 +1020,10 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         int k = 0;
         char *saved;
         char *token = strchr(string, ' ');
+        if (token == NULL) {
+            sprintf(response, "NAK. Ill-defined volume." RKEOL);
+            return RKResultFailedToSetVCP;
+        }
         do {
             token++;
         } while (*token == ' ' && k++ < 8);
-- 
2.43.0


From e5f71b342f6fdb0a354961d34e5ad177433eafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 15/42] fix: the largest WebSocket payload was written 5 bytes
 past the frame buffer

---
 source/RKWebSocket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..bce8eec 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -64,10 +64,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        // Frame header can be up to 14 bytes, plus one terminating byte
+        if (r > RKWebSocketFrameSize - 15) {
+            r = RKWebSocketFrameSize - 15;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 15);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
-- 
2.43.0


From b57c200371c273721a0470aa8617e85515e3a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 16/42] fix: an empty WebSocket frame announced a masking key
 but did not carry one

---
 source/RKWebSocket.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index bce8eec..b790156 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -53,12 +53,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     h->mask = true;
     h->opcode = code;
     char *payload = buf + sizeof(ws_frame_header);
-    if (size == 0) {
-        if (src == NULL) {
-            r = 0;
-        } else {
-            r = strlen((char *)src);
-        }
+    if (src == NULL) {
+        r = 0;
+    } else if (size == 0) {
+        r = strlen((char *)src);
     } else {
         r = size;
     }
@@ -92,6 +90,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
             memcpy(payload, src, r);
         }
         payload[r] = '\0';
+    } else if (h->mask) {
+        // An empty payload, the masking key is still part of the frame
+        *((uint32_t *)payload) = (uint32_t)rand();
+        payload += 4;
     }
     r = (size_t)((void *)payload - buf) + r;
     return r;
-- 
2.43.0


From c03e29a6aa5bc898c46463d926e2e35d89ea59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 17/42] fix: masked WebSocket frames were decoded from the
 wrong offset and only in part

---
 source/RKWebSocket.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index b790156..b61f254 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -112,13 +112,14 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     } else {
         r = h->len;
     }
-    payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (int i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
+    payload[r] = '\0';
     *dst = payload;
     return r;
 }
@@ -134,6 +135,9 @@ static size_t RKWebSocketFrameGetTargetSize(void *buf) {
     } else {
         r += h->len;
     }
+    if (h->mask) {
+        r += 4;
+    }
     return r;
 }
 
-- 
2.43.0


From 41b4caca62bb428c2c24d85617806d543c090c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 18/42] fix: a WebSocket frame larger than the frame buffer was
 read and decoded past its end

---
 source/RKWebSocket.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index b61f254..0a16108 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -420,7 +420,8 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    // Keep the last byte for the terminating character of RKWebSocketFrameDecode()
+                    r = RKSocketRead(W, origin, RKWebSocketFrameSize - 1 - origin);
                     if (r <= 0) {
                         if (W->verbose) {
                             fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
@@ -434,6 +435,11 @@ void *transporter(void *in) {
                     } else {
                         total += r;
                     }
+                    if (targetFrameSize > RKWebSocketFrameSize - 1) {
+                        RKLog("%s Error. Unable to handle a frame of %zu bytes\n", W->name, targetFrameSize);
+                        W->connected = false;
+                        break;
+                    }
                     if (total < targetFrameSize) {
                         origin += r;
                         continue;
-- 
2.43.0


From 78da842b8a788a4437b7ec529b2db9b9e4972a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 19/42] fix: the size of a WebSocket frame wrapped around for
 absurd payload lengths

---
 source/RKWebSocket.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 0a16108..7e50898 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -129,7 +129,12 @@ static size_t RKWebSocketFrameGetTargetSize(void *buf) {
     void *xlen = buf + sizeof(ws_frame_header);
     ws_frame_header *h = (ws_frame_header *)buf;
     if (h->len == 127) {
-        r += 8 + ntohll(*(uint64_t *)xlen);
+        const uint64_t len = ntohll(*(uint64_t *)xlen);
+        if (len > RKWebSocketFrameSize) {
+            // Too big regardless, also avoids an overflow of the sum
+            return (size_t)len;
+        }
+        r += 8 + len;
     } else if (h->len == 126) {
         r += 2 + ntohs(*(uint16_t *)xlen);
     } else {
-- 
2.43.0


From a0962f250a23378ae15266f606b758214e9b2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:00 +0000
Subject: [PATCH 20/42] Loop contracts on the WebSocket masking loops (guarded
 by RK_CONTRACTS)

---
 source/RKWebSocket.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 7e50898..50fc9c2 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -82,7 +82,14 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
             *((uint32_t *)payload) = key.u32;
             payload += 4;
             memcpy(payload, src, r);
-            for (int i = 0; i < r; i++) {
+            for (int i = 0; i < r; i++)
+            RKContract(
+                __CPROVER_assigns(i, __CPROVER_object_whole(payload))
+                __CPROVER_loop_invariant(i >= 0 && (size_t)i <= r)
+                __CPROVER_loop_invariant(RK_GHOST_MASKED(payload, key.code, i))
+                __CPROVER_loop_invariant(RK_GHOST_MASK_HEADER(payload))
+            )
+            {
                 payload[i] ^= key.code[i % 4];
             }
         } else {
@@ -115,7 +122,14 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
         payload += 4;
-        for (int i = 0; i < r; i++) {
+        for (int i = 0; i < r; i++)
+        RKContract(
+            __CPROVER_assigns(i, __CPROVER_object_whole(payload))
+            __CPROVER_loop_invariant(i >= 0 && (size_t)i <= r)
+            __CPROVER_loop_invariant(RK_GHOST_MASKED(payload, key.code, i))
+            __CPROVER_loop_invariant(RK_GHOST_MASK_HEADER(payload))
+        )
+        {
             payload[i] ^= key.code[i % 4];
         }
     }
-- 
2.43.0


From aa15155acd9198813f817a7c616ecf416b11701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:37 +0000
Subject: [PATCH 21/42] fix: RKClearRayBuffer left part of the product data of
 each ray uncleared

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..dd6b1fc 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1459,7 +1459,7 @@ int RKClearRayBuffer(RKBuffer buffer, const uint32_t count) {
         ray->header.s = RKRayStatusVacant;
         ray->header.i = -(uint64_t)count + k;
         ray->header.gateCount = 0;
-        memset(ray->data, 0, RKBaseProductCount * ray->header.capacity * (sizeof(uint8_t) + sizeof(float)));
+        memset(ray->data, 0, ray->header.capacity * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float))));
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From 62cd0ad6d2310891f79f36e7bf928e7623915b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 22/42] fix: reading a version 5 or 6 pulse dereferenced the
 header of the current version, which is NULL

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index dd6b1fc..d9c6c90 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1245,7 +1245,7 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
-- 
2.43.0


From daa7ad26e165824a5991c226b1047b0636264ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 23/42] fix: a recorded pulse with more gates than the pulse
 capacity was read past the pulse

---
 source/RKFoundation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index d9c6c90..8565e44 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1305,10 +1305,18 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             RKInt16C *x = RKGetInt16CDataFromPulse(pulse, j);
             gateCount = pulse->header.gateCount;
             pulse->header.downSampledGateCount = 0;
+            if (gateCount > capacity) {
+                RKLog("Error. Pulse in the file has %s gates > capacity %s\n", RKIntegerToCommaStyleString(gateCount), RKIntegerToCommaStyleString(capacity));
+                return RKResultTooBig;
+            }
             readsize = fread(x, sizeof(RKInt16C), gateCount, fid);
         } else if (fileHeader->dataType == RKRawDataTypeAfterMatchedFilter) {
             RKComplex *x = RKGetComplexDataFromPulse(pulse, j);
             gateCount = pulse->header.downSampledGateCount;
+            if (gateCount > capacity) {
+                RKLog("Error. Pulse in the file has %s gates > capacity %s\n", RKIntegerToCommaStyleString(gateCount), RKIntegerToCommaStyleString(capacity));
+                return RKResultTooBig;
+            }
             readsize = fread(x, sizeof(RKComplex), gateCount, fid);
             RKIQZ z = RKGetSplitComplexDataFromPulse(pulse, j);
             for (i = 0; i < gateCount; i++) {
-- 
2.43.0


From eced6f6fb22bfedf3057543d7aec730af634a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 24/42] fix: RKWaveformReadFromReference closed a file it does
 not own, which RKWaveformInitFromFile closed again

---
 source/RKWaveform.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 489f5ee..bb599ec 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1056,7 +1056,6 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
                       RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
@@ -1064,7 +1063,6 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].inputOrigin > RKMaximumGateCount) {
@@ -1072,7 +1070,6 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].inputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].outputOrigin > RKMaximumGateCount) {
@@ -1080,7 +1077,6 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].outputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
         }
-- 
2.43.0


From d157a1aa9ae27c2166be0ffa0079c9186c659de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 25/42] fix: RKWaveformReadFromReference went on with an
 uninitialized header when the file is too short

---
 source/RKWaveform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index bb599ec..65c02d4 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1033,6 +1033,8 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     r = fread(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
     if (r == 0) {
         RKLog("Error. No file header from %p.\n", fid);
+        free(fileHeader);
+        return NULL;
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
     strncpy(waveform->name, fileHeader->name, RKNameLength);
-- 
2.43.0


From a533e6ced67b837bfc9bca99168080f2d8ac9966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 26/42] fix: a waveform file with too many filters was read
 past the filter anchors

---
 source/RKWaveform.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 65c02d4..083e22b 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1043,6 +1043,12 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     waveform->fs = fileHeader->fs;
     for (k = 0; k < waveform->count; k++) {
         waveform->filterCounts[k] = fileHeader->filterCounts[k];
+        if (waveform->filterCounts[k] > RKMaximumFilterCount) {
+            RKLog("Error. This waveform is invalid.  filterCount = %d > %d\n", waveform->filterCounts[k], RKMaximumFilterCount);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
+        }
     }
     for (k = 0; k < waveform->count; k++) {
         r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
-- 
2.43.0


From f4615a9282f9461dbbbb7c9824fa085b3ae2c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 27/42] fix: a waveform file whose filters reach past the
 samples was accepted and read out of bounds

---
 source/RKWaveform.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 083e22b..ae05755 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1066,10 +1066,10 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                 RKWaveformFree(waveform);
                 return NULL;
             }
-            if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
-                RKLog("Error. This waveform is invalid.  origin = %s > %s (RKMaximumGateCount)\n",
+            if (waveform->filterAnchors[k][j].origin > waveform->depth - waveform->filterAnchors[k][j].length) {
+                RKLog("Error. This waveform is invalid.  origin = %s > %s (depth - length)\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
-                      RKIntegerToCommaStyleString(RKMaximumGateCount));
+                      RKIntegerToCommaStyleString(waveform->depth - waveform->filterAnchors[k][j].length));
                 RKWaveformFree(waveform);
                 return NULL;
             }
-- 
2.43.0


From ce1f76d3b815c93bbab42273f9b5ceb157a67c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 28/42] fix: the name of a waveform read from a file could be
 left unterminated

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index ae05755..3e2cbb7 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1037,7 +1037,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
         return NULL;
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
-    strncpy(waveform->name, fileHeader->name, RKNameLength);
+    strncpy(waveform->name, fileHeader->name, RKNameLength - 1);
     waveform->type = fileHeader->type;
     waveform->fc = fileHeader->fc;
     waveform->fs = fileHeader->fs;
-- 
2.43.0


From c02f70a44f8e5f16335c23afc7804b2fbccd451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 29/42] fix: the raw data recorder dropped the cached end of
 the last file when it stops

---
 source/RKRawDataRecorder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..cd392dd 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -278,6 +278,7 @@ static void *pulseRecorder(void *in) {
     }
 
     if (engine->fd) {
+        RKRawDataRecorderCacheFlush(engine);
         close(engine->fd);
         engine->fd = 0;
         if (engine->fileWriteCount == 0) {
-- 
2.43.0


From 7af7e7966a0078c17b95a3ec19280d079e15810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 30/42] fix: the error message of a failed raw data write
 lacked an argument

---
 source/RKRawDataRecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index cd392dd..ebdcc51 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -439,7 +439,7 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
         engine->fileWriteCount++;
         if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
+            RKLog("%s Error in write().   writtenSize = %s\n", engine->name, RKIntegerToCommaStyleString((long)writtenSize));
         }
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
-- 
2.43.0


From 47ac2c6d077c98530ab458a6778dd70c0dac7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 31/42] fix: the second pulse width of a version 5 file was
 taken from the PRT

---
 source/RKFileHeader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..d102a5e 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -61,7 +61,7 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         fileHeader->config.prt[0] = fileHeaderV1->config.prt[0];
         fileHeader->config.prt[1] = fileHeaderV1->config.prt[1];
         fileHeader->config.pw[0] = fileHeaderV1->config.pw[0];
-        fileHeader->config.pw[1] = fileHeaderV1->config.prt[1];
+        fileHeader->config.pw[1] = fileHeaderV1->config.pw[1];
         fileHeader->config.pulseGateCount = fileHeaderV1->config.pulseGateCount;
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
-- 
2.43.0


From 6b16eb4c49f1cdcfd53060380aa0ece73a62bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 32/42] fix: RKFileHeaderRead dereferenced NULL when the
 waveform in the file is not valid

---
 source/RKFileHeader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index d102a5e..5a6618e 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -90,6 +90,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         free(fileHeaderV1);
     } else {
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
+        if (waveform == NULL) {
+            RKLog("Error. Failed reading waveform.\n");
+            exit(EXIT_FAILURE);
+        }
         fileHeader->config.waveform = waveform;
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         RKWaveformDecimate(fileHeader->config.waveformDecimate, fileHeader->desc.pulseToRayRatio);
-- 
2.43.0


From afa2f3a312aeeb1d78a4d3e39782dff58af7fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 33/42] fix: a record request made while a pulse is being
 recorded was lost

---
 source/RKRawDataRecorder.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index ebdcc51..468d627 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -49,6 +49,7 @@ static void *pulseRecorder(void *in) {
     struct timeval t0, t1;
 
     bool record = engine->record;
+    bool wanted = record;
 
     RKPulse *pulse;
     RKConfig *config;
@@ -130,8 +131,11 @@ static void *pulseRecorder(void *in) {
         // Consider we are writing to a file at this point
         engine->state |= RKEngineStateWritingFile;
 
+        // Look at the request only once for each pulse, another thread may change it at any time
+        wanted = engine->record;
+
         // Assess the configIndex, or if we reached the maximum pulse count for a file; or when user just decided to start/stop recording
-        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != engine->record) {
+        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != wanted) {
             j = pulse->header.configIndex;
             config = &engine->configBuffer[pulse->header.configIndex];
             waveform = config->waveform;
@@ -189,7 +193,7 @@ static void *pulseRecorder(void *in) {
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (engine->record && config->i > 1003) {
+            if (wanted && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
@@ -227,7 +231,7 @@ static void *pulseRecorder(void *in) {
         }
 
         // Pulse to write cache
-        if (engine->record && engine->fd) {
+        if (wanted && engine->fd) {
             if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 len += RKRawDataRecorderCacheWrite(engine, &pulse->header, sizeof(RKPulseHeader));
                 len += RKRawDataRecorderCacheWrite(engine, RKGetInt16CDataFromPulse(pulse, 0), pulse->header.gateCount * sizeof(RKInt16C));
@@ -273,7 +277,7 @@ static void *pulseRecorder(void *in) {
 
         // Update pulseIndex for the next watch
         k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
-        record = engine->record;
+        record = wanted;
         n++;
     }
 
-- 
2.43.0


From 10231248b8b6eb15b08a55a00ce121850a1db1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 34/42] fix: a configuration with a bad waveform left the lock
 held and a wrong identifier behind

---
 source/RKConfig.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..95c4c13 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,6 +162,9 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
+                    newConfig->i = configId - configBufferDepth;
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveform = waveform;
@@ -173,6 +176,9 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
+                    newConfig->i = configId - configBufferDepth;
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveformDecimate = waveform;
-- 
2.43.0


From 379f755c9f58d3c7022d8dc1e64b7b7eaaa71fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 35/42] fix: a long VCP definition overflowed the log line in
 RKConfigAdvance

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 95c4c13..4ded840 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -128,7 +128,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 if (string == NULL) {
                     sprintf(stringBuffer[0], "VCP = (NULL)\n");
                 } else {
-                    sprintf(stringBuffer[0], "VCP = %s\n", string);
+                    snprintf(stringBuffer[0], RKStatusStringLength, "VCP = %s\n", string) < 0 ? abort() : (void)0;
                     strncpy(newConfig->vcpDefinition, string, RKMaximumCommandLength - 8);
                 }
                 break;
-- 
2.43.0


From a1ad40ef1a98964400aa8117eb5444fa576b7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 36/42] fix: a sweep marker before the first waveform
 dereferenced NULL in RKConfigAdvance

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 4ded840..c95f021 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -89,7 +89,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                         rkGlobalParameters.showColor ? RKDeepPinkColor : "",
                         RKMarkerScanTypeString(newConfig->startMarker),
                         rkGlobalParameters.showColor ? RKNoColor : "",
-                        RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
+                        newConfig->waveform ? RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8) : "");
                 break;
             case RKConfigKeyPRT:
                 newConfig->prt[0] = (RKFloat)va_arg(args, double);
-- 
2.43.0


From d0249bdef5d62a7593dfd99c4fe208aa946986e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 37/42] fix: a waveform calibration without tones overflowed
 the stack in RKConfigAdvance

---
 source/RKConfig.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index c95f021..c83d2ea 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -229,8 +229,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                     w2 = MAX(w1, (int)log10f(waveformCal->PCal[j]));
                 }
                 sprintf(format, "WavCal[%%%dd/%%%dd] @ Z = %%+%d.2f, %%+%d.2f dB   D = %%+%d.2f dB   P = %%+%d.2f rad",
-                        (int)log10f((float)waveformCal->count) + 1,
-                        (int)log10f((float)waveformCal->count) + 1,
+                        (int)log10f((float)MAX(1, waveformCal->count)) + 1,
+                        (int)log10f((float)MAX(1, waveformCal->count)) + 1,
                         w0 + 5,
                         w0 + 5,
                         w1 + 5,
-- 
2.43.0


From c549db7ad82ebe5b770a3aae1ac84c07ec4decc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:34 +0000
Subject: [PATCH 38/42] fix: negative numbers of three, six, ... digits were
 shown with a comma after the sign

---
 source/RKMisc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..fcf13bc 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -618,14 +618,14 @@ char *RKIntegerToCommaStyleString(const long long num) {
         return string;
     }
 
-    k = (int)(strlen(string) - 1) / 3;
+    k = (int)(strlen(string) - 1 - (num < 0)) / 3;
     i = (int)(strlen(string) + k);
     j = 1;
     string[i] = '\0';
     while (i > 0) {
         i--;
         string[i] = string[i - k];
-        if (j > 3) {
+        if (j > 3 && k > 0) {
             j = 0;
             string[i] = ',';
             k--;
@@ -686,7 +686,7 @@ char *RKFloatToCommaStyleString(const double num) {
         return string;
     }
 
-    k = (int)(strlen(string) - 5) / 3;
+    k = (int)(strlen(string) - 5 - (string[0] == '-')) / 3;
     i = (int)(strlen(string) + k);
     j = 1;
     string[i] = '\0';
@@ -699,7 +699,7 @@ char *RKFloatToCommaStyleString(const double num) {
     while (i > 0) {
         i--;
         string[i] = string[i - k];
-        if (j > 3) {
+        if (j > 3 && k > 0) {
             j = 0;
             string[i] = ',';
             k--;
-- 
2.43.0


From ba0e89e7f8479f1cd3dac6d0c029425233ba7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:34 +0000
Subject: [PATCH 39/42] fix: numbers with more than about 20 digits overflowed
 the buffer of RKFloatToCommaStyleString

---
 source/RKMisc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index fcf13bc..d4af907 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -681,6 +681,11 @@ char *RKFloatToCommaStyleString(const double num) {
     ibuf = ibuf == 31 ? 0 : ibuf + 1;
     pthread_mutex_unlock(&lock);
 
+    if (!(fabs(num) < 1.0e15)) {
+        snprintf(string, sizeof(stringBuffer[0]), "%.3e", num);
+        return string;
+    }
+
     i = sprintf(string, "%.3f", num);
     if (i <= 7) {
         return string;
-- 
2.43.0


From 989f0615e63ea1fc726e595df456a2abaefc38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:48 +0000
Subject: [PATCH 40/42] fix: a skipped ray kept the 8-bit data of its previous
 life

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..50b8e93 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -156,7 +156,7 @@ static void zeroOutRay(RKRay *ray) {
         *f++ = NAN;
     }
     uint8_t *u = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
-    memset(u, 0, RKBaseProductCount * sizeof(uint8_t));
+    memset(u, 0, RKBaseProductCount * ray->header.capacity * sizeof(uint8_t));
 }
 
 int RKNoiseFromConfig(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCount) {
-- 
2.43.0


From bf8230b975d880e0952a26a2dda486854d8f5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:48 +0000
Subject: [PATCH 41/42] fix: a ray could have one pulse more than
 RKMaximumPulsesPerRay

---
 source/RKMomentEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 50b8e93..d019ab8 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -732,7 +732,7 @@ static void *pulseGatherer(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
@@ -1036,7 +1036,7 @@ static void *pulseGathererV1(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
-- 
2.43.0


From b2fe2d48a949cc49d305397c43fa75aef57cbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 42/42] fix: without shared boundary pulses, the last ray of a
 sweep could include a pulse after its end

---
 source/RKMomentEngine.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index d019ab8..4746cea 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -736,12 +736,10 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
+                    // The last pulse of a sweep has no ray after it to go to. Nothing to take off if there is only one pulse.
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
@@ -1039,10 +1037,8 @@ static void *pulseGathererV1(void *_in) {
             if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
-                    if (count > 1) {
+                    // The last pulse of a sweep has no ray after it to go to. Nothing to take off if there is only one pulse.
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
                 }
-- 
2.43.0

