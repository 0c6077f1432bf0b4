From 79b847fab96e20e7b0fe3ab63bc3ee58b1b878e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 01/30] hooks: EMBEDDB_LOOP loop-contract markers (expand to
 nothing unless EMBEDDB_VERIFY is defined)

---
 lib/Distribution/embedDB.c            | 4 ++--
 lib/Distribution/embedDB.h            | 5 +++++
 src/embedDB/embedDB.h                 | 5 +++++
 src/query-interface/advancedQueries.c | 4 ++--
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..5c09a48 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3335,7 +3335,7 @@ int8_t nextSelection(embedDBOperator *op) {
         isSigned = 1;
     }
 
-    while (op->input->next(op->input)) {
+    while (op->input->next(op->input)) EMBEDDB_LOOP(nextSelection) {
         void *colData = (int8_t *)op->input->recordBuffer + colPos;
         if (compare(colData, operation, state->compVal, isSigned, colSize)) {
             memcpy(op->recordBuffer, op->input->recordBuffer, getRecordSizeFromSchema(op->schema));
@@ -3488,7 +3488,7 @@ int8_t nextAggregate(embedDBOperator *op) {
     }
 
     int8_t exitType = 0;
-    while (input->next(input)) {
+    while (input->next(input)) EMBEDDB_LOOP(nextAggregate) {
         // Check if record is in the same group as the last record
         if (!state->isLastRecordUsable || state->groupfunc(state->lastRecordBuffer, input->recordBuffer)) {
             recordsInGroup = 1;
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..035e68e 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -227,6 +227,11 @@ void *splinePointLocation(spline *spl, size_t pointIndex);
 extern "C" {
 #endif
 
+/* Verification hook: expands to nothing unless a build defines EMBEDDB_VERIFY and supplies loop contracts. */
+#ifndef EMBEDDB_VERIFY
+#define EMBEDDB_LOOP(id)
+#endif
+
 /* Define type for page ids (physical and logical). */
 typedef uint32_t id_t;
 
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..2aedb71 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -47,6 +47,11 @@ extern "C" {
 
 #include "../spline/spline.h"
 
+/* Verification hook: expands to nothing unless a build defines EMBEDDB_VERIFY and supplies loop contracts. */
+#ifndef EMBEDDB_VERIFY
+#define EMBEDDB_LOOP(id)
+#endif
+
 /* Define type for page ids (physical and logical). */
 typedef uint32_t id_t;
 
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..8991ede 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -406,7 +406,7 @@ int8_t nextSelection(embedDBOperator* op) {
         isSigned = 1;
     }
 
-    while (op->input->next(op->input)) {
+    while (op->input->next(op->input)) EMBEDDB_LOOP(nextSelection) {
         void* colData = (int8_t*)op->input->recordBuffer + colPos;
         if (compare(colData, operation, state->compVal, isSigned, colSize)) {
             memcpy(op->recordBuffer, op->input->recordBuffer, getRecordSizeFromSchema(op->schema));
@@ -559,7 +559,7 @@ int8_t nextAggregate(embedDBOperator* op) {
     }
 
     int8_t exitType = 0;
-    while (input->next(input)) {
+    while (input->next(input)) EMBEDDB_LOOP(nextAggregate) {
         // Check if record is in the same group as the last record
         if (!state->isLastRecordUsable || state->groupfunc(state->lastRecordBuffer, input->recordBuffer)) {
             recordsInGroup = 1;
-- 
2.43.0


From 92b9c0d9628e294ea1587bed50d319b8096cae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 02/30] fix: Distribution copy of embedDBCalculateSlope reads
 before the page on an empty buffer (as already fixed in src)

---
 lib/Distribution/embedDB.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5c09a48..684c3ae 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1305,7 +1305,7 @@ float embedDBCalculateSlope(embedDBState *state, void *buffer) {
     uint32_t slopeX1, slopeX2;
     slopeX1 = 0;
     slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;
-
+    if(EMBEDDB_GET_COUNT(buffer) == 0) slopeX2 = 0;
     if (state->keySize <= 4) {
         uint32_t slopeY1 = 0, slopeY2 = 0;
 
-- 
2.43.0


From c599fc0c0fffbb137fa3ffb814b0153b2007603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 03/30] fix: SUM and AVG sign-extend signed columns of 5 to 7
 bytes correctly

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 684c3ae..94ce4ae 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3790,7 +3790,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -3993,7 +3993,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 8991ede..f4e8149 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,7 +861,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1064,7 +1064,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From a3ce4f1599bcc65161d79af1343d4bff6fa9e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 04/30] fix: int32Comparator and int64Comparator order values
 whose difference overflows

---
 lib/Distribution/embedDB.c           | 13 +++++++------
 lib/EmbedDB-Utility/embedDBUtility.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 94ce4ae..e1a8a98 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4327,19 +4327,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..3e260c4 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -236,19 +236,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From 1ffa3be063fef4d60ffbab3fcc8a17cf8b42574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 05/30] fix: updateBitmapInt16 terminates for values near
 INT32_MAX

---
 lib/Distribution/embedDB.c           | 4 +---
 lib/EmbedDB-Utility/embedDBUtility.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e1a8a98..f691a44 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4204,12 +4204,10 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    while (val > current && num > 1) { /* Last bit is for every value bigger than largest cutoff */
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 3e260c4..82cd83e 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -113,12 +113,10 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    while (val > current && num > 1) { /* Last bit is for every value bigger than largest cutoff */
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
-- 
2.43.0


From 9b9e5e15832c0951d4a173da27174097564c1bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 06/30] fix: inBitmapInt16 and inBitmapInt64 no longer truncate
 the overlap to 8 bits

---
 lib/Distribution/embedDB.c           | 8 ++++----
 lib/EmbedDB-Utility/embedDBUtility.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f691a44..67e2860 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4217,8 +4217,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap (the mask itself may not fit in the return type)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4282,8 +4282,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap (the mask itself may not fit in the return type)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 82cd83e..666b78f 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -126,8 +126,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap (the mask itself may not fit in the return type)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -191,8 +191,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return non-zero if there is an overlap (the mask itself may not fit in the return type)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
-- 
2.43.0


From aa68f63229c10f8701cc10977be8e26ad3a75c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 07/30] fix: buildBitmapInt64FromRange covers every value of
 the range

---
 lib/Distribution/embedDB.c           | 28 +++++++++++++---------------
 lib/EmbedDB-Utility/embedDBUtility.c | 28 +++++++++++++---------------
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 67e2860..11a9085 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4298,26 +4298,24 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
         return;
     } else {
-        uint64_t minMap = 0, maxMap = 0;
+        // The bitmap is an array of bytes: lower values are in the first bytes and in the msb of each byte
+        uint8_t minMap[8] = {0}, maxMap[8] = {0};
         if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
-            }
+            updateBitmapInt64(min, minMap);
         }
         if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+            updateBitmapInt64(max, maxMap);
+        }
+        int8_t started = (min == NULL), ended = 0;
+        for (int8_t i = 0; i < 8; i++) {
+            uint8_t b = 0;
+            for (uint8_t bit = 128; bit > 0; bit = bit >> 1) {
+                if (minMap[i] & bit) started = 1;
+                if (started && !ended) b = b | bit;
+                if (maxMap[i] & bit) ended = 1;
             }
+            ((uint8_t *)bm)[i] = b;
         }
-        *(uint64_t *)bm = minMap & maxMap;
     }
 }
 
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 666b78f..bb5e550 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -207,26 +207,24 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
         return;
     } else {
-        uint64_t minMap = 0, maxMap = 0;
+        // The bitmap is an array of bytes: lower values are in the first bytes and in the msb of each byte
+        uint8_t minMap[8] = {0}, maxMap[8] = {0};
         if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
-            }
+            updateBitmapInt64(min, minMap);
         }
         if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+            updateBitmapInt64(max, maxMap);
+        }
+        int8_t started = (min == NULL), ended = 0;
+        for (int8_t i = 0; i < 8; i++) {
+            uint8_t b = 0;
+            for (uint8_t bit = 128; bit > 0; bit = bit >> 1) {
+                if (minMap[i] & bit) started = 1;
+                if (started && !ended) b = b | bit;
+                if (maxMap[i] & bit) ended = 1;
             }
+            ((uint8_t *)bm)[i] = b;
         }
-        *(uint64_t *)bm = minMap & maxMap;
     }
 }
 
-- 
2.43.0


From a75695abac42e7edcb3de5031d982d9b50c16c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 08/30] fix: read caches are dropped when the page they hold is
 overwritten, erased or replaced

---
 lib/Distribution/embedDB.c | 33 +++++++++++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 11a9085..f631d55 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -486,6 +486,7 @@ int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
+static void dropBufferedPages(id_t *bufferedPage, id_t startPage, uint32_t numPages);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 
@@ -1565,6 +1566,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        dropBufferedPages(&state->bufferedPageId, eraseStartingPage, state->eraseSizeInPages);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2410,6 +2412,17 @@ void embedDBPrintStats(embedDBState *state) {
     }
 }
 
+/**
+ * @brief	Forgets the page held by a read buffer if it lies in the given range of physical pages.
+ * @param	bufferedPage	Physical page currently in the read buffer
+ * @param	startPage		First physical page of the range
+ * @param	numPages		Number of pages in the range
+ */
+static void dropBufferedPages(id_t *bufferedPage, id_t startPage, uint32_t numPages) {
+    if (*bufferedPage >= startPage && *bufferedPage - startPage < numPages)
+        *bufferedPage = -1;
+}
+
 /**
  * @brief	Writes page in buffer to storage. Returns page number.
  * @param	state	embedDB algorithm state structure
@@ -2427,6 +2440,9 @@ id_t writePage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
+    /* The read buffer must not keep a page that is about to be replaced */
+    dropBufferedPages(&state->bufferedPageId, physicalPageNum, state->eraseSizeInPages);
+
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
@@ -2493,6 +2509,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
+        dropBufferedPages(&state->bufferedPageId, eraseStartingPage, blockSize);
 
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
@@ -2503,6 +2520,9 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep a page that is about to be replaced */
+    dropBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, 1);
+
     /* Write temporary page to storage */
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
@@ -2559,6 +2579,9 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
+    /* The read buffer must not keep a page that is about to be replaced */
+    dropBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, state->eraseSizeInPages);
+
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
@@ -2623,6 +2646,9 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
     }
 
+    // The read buffer must not keep a page that is about to be replaced
+    dropBufferedPages(&state->bufferedVarPage, physicalPageId, state->eraseSizeInPages);
+
     // Add logical page number to data page
     void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
@@ -2654,6 +2680,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the file
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2667,6 +2695,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the file
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2686,6 +2716,7 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2711,6 +2742,7 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2736,6 +2768,7 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
     // Read in one page worth of data
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..911b729 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -62,6 +62,7 @@ int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
+static void dropBufferedPages(id_t *bufferedPage, id_t startPage, uint32_t numPages);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 
@@ -1141,6 +1142,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        dropBufferedPages(&state->bufferedPageId, eraseStartingPage, state->eraseSizeInPages);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -1986,6 +1988,17 @@ void embedDBPrintStats(embedDBState *state) {
     }
 }
 
+/**
+ * @brief	Forgets the page held by a read buffer if it lies in the given range of physical pages.
+ * @param	bufferedPage	Physical page currently in the read buffer
+ * @param	startPage		First physical page of the range
+ * @param	numPages		Number of pages in the range
+ */
+static void dropBufferedPages(id_t *bufferedPage, id_t startPage, uint32_t numPages) {
+    if (*bufferedPage >= startPage && *bufferedPage - startPage < numPages)
+        *bufferedPage = -1;
+}
+
 /**
  * @brief	Writes page in buffer to storage. Returns page number.
  * @param	state	embedDB algorithm state structure
@@ -2003,6 +2016,9 @@ id_t writePage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
+    /* The read buffer must not keep a page that is about to be replaced */
+    dropBufferedPages(&state->bufferedPageId, physicalPageNum, state->eraseSizeInPages);
+
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
@@ -2069,6 +2085,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
+        dropBufferedPages(&state->bufferedPageId, eraseStartingPage, blockSize);
 
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
@@ -2079,6 +2096,9 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep a page that is about to be replaced */
+    dropBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, 1);
+
     /* Write temporary page to storage */
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
@@ -2135,6 +2155,9 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
+    /* The read buffer must not keep a page that is about to be replaced */
+    dropBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, state->eraseSizeInPages);
+
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
@@ -2199,6 +2222,9 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
     }
 
+    // The read buffer must not keep a page that is about to be replaced
+    dropBufferedPages(&state->bufferedVarPage, physicalPageId, state->eraseSizeInPages);
+
     // Add logical page number to data page
     void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
@@ -2230,6 +2256,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the file
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2243,6 +2271,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the file
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2262,6 +2292,7 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2287,6 +2318,7 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2312,6 +2344,7 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
     // Read in one page worth of data
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From e611807350989cd63f44e07bda1ee0d1a6f1ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 09/30] fix: record positions beyond 127 on a page are no
 longer truncated to 8 bits in lookups and recovery

---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f631d55..28f9216 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -755,7 +755,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -855,7 +855,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1866,7 +1866,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1895,7 +1895,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int32_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1973,7 +1973,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int32_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 911b729..61d95f3 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -331,7 +331,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -431,7 +431,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1442,7 +1442,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1471,7 +1471,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int32_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1549,7 +1549,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int32_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
-- 
2.43.0


From 08c74e5bffc4b88513dd623ae65716cc7eff79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 10/30] fix: binarySearch returns a value on every path and
 does not underflow below the first page

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 28f9216..cf1dbfd 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1815,6 +1815,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1826,6 +1828,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* Only one candidate block is left, and it is in the buffer */
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 61d95f3..4084dc3 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1391,6 +1391,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1402,6 +1404,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* Only one candidate block is left, and it is in the buffer */
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
-- 
2.43.0


From c1b59cabc2661a9412c23e8331c0c8ac4f2a3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 11/30] fix: the spline is not touched when binary search is
 used

---
 lib/Distribution/embedDB.c | 6 +++---
 src/embedDB/embedDB.c      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cf1dbfd..f3be340 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1584,7 +1584,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters) && !EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -2037,7 +2037,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && it->minKey != NULL && state->spl->count != 0) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2463,7 +2463,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters) && !EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4084dc3..68ea3f2 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1160,7 +1160,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters) && !EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1613,7 +1613,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && it->minKey != NULL && state->spl->count != 0) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2039,7 +2039,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters) && !EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
-- 
2.43.0


From ac76252a25187ba57cfe9d85fd8d7943752d52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 12/30] fix: embedDBPut compares with the last record of a
 partially filled page after a flush

---
 lib/Distribution/embedDB.c | 7 ++++---
 src/embedDB/embedDB.c      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f3be340..fdf121d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1433,9 +1433,10 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+                return -1;
+            }
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 68ea3f2..7431a2b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1009,9 +1009,10 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+                return -1;
+            }
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From 85a0bb951c0c97684415a73a875b0026bb3ee712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 13/30] fix: failed page writes and erases are reported to the
 caller and do not consume a page id

---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index fdf121d..0bd5a86 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1453,6 +1453,9 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1) {
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -2440,7 +2443,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2478,6 +2481,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2521,8 +2525,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2579,7 +2583,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2610,6 +2614,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7431a2b..e502474 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1029,6 +1029,9 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1) {
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -2016,7 +2019,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2054,6 +2057,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2097,8 +2101,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2155,7 +2159,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2186,6 +2190,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
-- 
2.43.0


From aa7cca527af29e0f8dd25ce020a58a121e8439bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 14/30] fix: failed variable-data writes and failed flushes are
 reported and leave a consistent write position

---
 lib/Distribution/embedDB.c | 47 ++++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 47 ++++++++++++++++++++++++++------------
 2 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0bd5a86..4bf79b5 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1632,11 +1632,13 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
+    if (state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+        if (writeVariablePage(state, buf) == -1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+        state->currentVarLoc += (state->pageSize - state->currentVarLoc % state->pageSize) % state->pageSize + state->variableDataHeaderSize;
     }
 
     if (variableData == NULL) {
@@ -1665,7 +1667,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1684,7 +1688,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1694,7 +1700,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+        return embedDBFlushVar(state);
     }
 
     return 0;
@@ -1987,7 +1993,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2084,14 +2092,14 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
+    int8_t flushResult = state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
+    int temp = (state->pageSize - (state->currentVarLoc % state->pageSize)) % state->pageSize;
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
-    return 0;
+    return flushResult ? 0 : -1;
 }
 
 /**
@@ -2103,8 +2111,9 @@ int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
     if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
+        return EMBEDDB_USING_VDATA(state->parameters) ? embedDBFlushVar(state) : 0;
 
+    int8_t result = 0;
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2113,7 +2122,9 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    if (!state->fileInterface->flush(state->dataFile)) {
+        result = -1;
+    }
 
     indexPage(state, pageNum);
 
@@ -2131,10 +2142,14 @@ int8_t embedDBFlush(embedDBState *state) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
+            /* The data page is on storage, so it must not be written again */
+            initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
+        if (!state->fileInterface->flush(state->indexFile)) {
+            result = -1;
+        }
 
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
@@ -2153,7 +2168,7 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
     }
-    return 0;
+    return result;
 }
 
 /**
@@ -2266,7 +2281,9 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e502474..1324799 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1208,11 +1208,13 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
+    if (state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+        if (writeVariablePage(state, buf) == -1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+        state->currentVarLoc += (state->pageSize - state->currentVarLoc % state->pageSize) % state->pageSize + state->variableDataHeaderSize;
     }
 
     if (variableData == NULL) {
@@ -1241,7 +1243,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1260,7 +1264,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1270,7 +1276,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+        return embedDBFlushVar(state);
     }
 
     return 0;
@@ -1563,7 +1569,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1660,14 +1668,14 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
+    int8_t flushResult = state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
+    int temp = (state->pageSize - (state->currentVarLoc % state->pageSize)) % state->pageSize;
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
-    return 0;
+    return flushResult ? 0 : -1;
 }
 
 /**
@@ -1679,8 +1687,9 @@ int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
     if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
+        return EMBEDDB_USING_VDATA(state->parameters) ? embedDBFlushVar(state) : 0;
 
+    int8_t result = 0;
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1689,7 +1698,9 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    if (!state->fileInterface->flush(state->dataFile)) {
+        result = -1;
+    }
 
     indexPage(state, pageNum);
 
@@ -1707,10 +1718,14 @@ int8_t embedDBFlush(embedDBState *state) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
+            /* The data page is on storage, so it must not be written again */
+            initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
+        if (!state->fileInterface->flush(state->indexFile)) {
+            result = -1;
+        }
 
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
@@ -1729,7 +1744,7 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
     }
-    return 0;
+    return result;
 }
 
 /**
@@ -1842,7 +1857,9 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
-- 
2.43.0


From 1cdbbf976ec6f3fd3f1cc84a790c78e6752dc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 15/30] fix: index entries are matched to the data page they
 describe and never written past the index page

---
 lib/Distribution/embedDB.c | 25 ++++++++++++++++++++++---
 src/embedDB/embedDB.c      | 25 ++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4bf79b5..dbcc368 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2131,6 +2131,16 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
+        if (idxcount >= state->maxIdxRecordsPerPage) {
+            /* The index page is full, so it has to be written before adding the entry for this data page */
+            if (writeIndexPage(state, buf) == -1) {
+                initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+                return -1;
+            }
+            idxcount = 0;
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+            memcpy((int8_t *)buf + 8, &pageNum, sizeof(id_t));
+        }
         EMBEDDB_INC_COUNT(buf);
 
         /* Copy record onto index page */
@@ -2153,6 +2163,9 @@ int8_t embedDBFlush(embedDBState *state) {
 
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + 8, &(state->nextDataPageId), sizeof(id_t));
     }
 
     /* Reinitialize buffer */
@@ -2193,7 +2206,7 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
+            uint16_t indexRec;
 
             if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
@@ -2205,11 +2218,17 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
                     return 0;
                 }
 
+                // Index pages written by a flush or before a restart can be partially filled, so check which data pages this one describes
+                void *indexBuf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+                id_t firstDataPage = 0;
+                memcpy(&firstDataPage, (int8_t *)indexBuf + 8, sizeof(id_t));
+                indexRec = it->nextDataPage - firstDataPage;
+
                 // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = (int8_t *)indexBuf + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
 
                 // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                if (it->nextDataPage >= firstDataPage && it->nextDataPage - firstDataPage < EMBEDDB_GET_COUNT(indexBuf) && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1324799..151b245 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1707,6 +1707,16 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
+        if (idxcount >= state->maxIdxRecordsPerPage) {
+            /* The index page is full, so it has to be written before adding the entry for this data page */
+            if (writeIndexPage(state, buf) == -1) {
+                initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+                return -1;
+            }
+            idxcount = 0;
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+            memcpy((int8_t *)buf + 8, &pageNum, sizeof(id_t));
+        }
         EMBEDDB_INC_COUNT(buf);
 
         /* Copy record onto index page */
@@ -1729,6 +1739,9 @@ int8_t embedDBFlush(embedDBState *state) {
 
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + 8, &(state->nextDataPageId), sizeof(id_t));
     }
 
     /* Reinitialize buffer */
@@ -1769,7 +1782,7 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
+            uint16_t indexRec;
 
             if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
@@ -1781,11 +1794,17 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
                     return 0;
                 }
 
+                // Index pages written by a flush or before a restart can be partially filled, so check which data pages this one describes
+                void *indexBuf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+                id_t firstDataPage = 0;
+                memcpy(&firstDataPage, (int8_t *)indexBuf + 8, sizeof(id_t));
+                indexRec = it->nextDataPage - firstDataPage;
+
                 // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = (int8_t *)indexBuf + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
 
                 // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                if (it->nextDataPage >= firstDataPage && it->nextDataPage - firstDataPage < EMBEDDB_GET_COUNT(indexBuf) && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
-- 
2.43.0


From 82083dbb4f174b122e75881510e29babf573a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 16/30] fix: the page header leaves room for the bitmap and the
 min/max summaries in every configuration

---
 lib/Distribution/embedDB.c | 8 +++++++-
 src/embedDB/embedDB.c      | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index dbcc368..afac2e3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -608,11 +608,17 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
+    }
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) {
         state->headerSize += state->bitmapSize;
     }
 
-    if (EMBEDDB_USING_MAX_MIN(state->parameters))
+    if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
+        /* The summaries start at a fixed offset behind the bitmap */
+        if (state->headerSize < EMBEDDB_MIN_OFFSET)
+            state->headerSize = EMBEDDB_MIN_OFFSET;
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
+    }
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 151b245..c77f7bd 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -184,11 +184,17 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
+    }
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) {
         state->headerSize += state->bitmapSize;
     }
 
-    if (EMBEDDB_USING_MAX_MIN(state->parameters))
+    if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
+        /* The summaries start at a fixed offset behind the bitmap */
+        if (state->headerSize < EMBEDDB_MIN_OFFSET)
+            state->headerSize = EMBEDDB_MIN_OFFSET;
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
+    }
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
-- 
2.43.0


From b9b0ff31da72080179ba94f392675fe8e747d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 17/30] fix: embedDBNextVar reads the variable data of buffered
 records after pages were written

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index afac2e3..9632fd2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2304,7 +2304,7 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
         if (embedDBFlushVar(state) != 0) {
             return 0;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c77f7bd..a1b81c1 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1880,7 +1880,7 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
         if (embedDBFlushVar(state) != 0) {
             return 0;
-- 
2.43.0


From d248f9cdc5332d3e90761608033b4451c247c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 18/30] fix: a record inserted without variable data never
 refers to the data of another record

---
 lib/Distribution/embedDB.c | 6 ++++--
 src/embedDB/embedDB.c      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9632fd2..87902d3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1133,6 +1133,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->minVarRecordId = UINT64_MAX;
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
+    state->recordHasVarData = 0;
 
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
@@ -1655,8 +1656,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Perform the regular insert
     state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    int8_t r = embedDBPut(state, key, data);
+    state->recordHasVarData = 0;
+    if (r != 0) {
         return r;
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a1b81c1..46cfd06 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -709,6 +709,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->minVarRecordId = UINT64_MAX;
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
+    state->recordHasVarData = 0;
 
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
@@ -1231,8 +1232,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Perform the regular insert
     state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    int8_t r = embedDBPut(state, key, data);
+    state->recordHasVarData = 0;
+    if (r != 0) {
         return r;
     }
 
-- 
2.43.0


From 1477bd8f136ccc8b81ac94e21c07d48d5fce1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 19/30] fix: the keys of the oldest variable data are read
 before their pages are erased

---
 lib/Distribution/embedDB.c | 15 ++++++++-------
 src/embedDB/embedDB.c      | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 87902d3..70bc2c8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2681,6 +2681,14 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2689,13 +2697,6 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
         void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
         memcpy(&state->minVarRecordId, buf, state->keySize);
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 46cfd06..3162b29 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2257,6 +2257,14 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2265,13 +2273,6 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
         void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
         memcpy(&state->minVarRecordId, buf, state->keySize);
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
-- 
2.43.0


From 417361dd3b1c448b792a36300bcdf3a12ef16400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 20/30] fix: a flush moves the record-level consistency blocks
 when it fills a block

---
 lib/Distribution/embedDB.c | 11 ++++++++++-
 src/embedDB/embedDB.c      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 70bc2c8..18478f6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1554,7 +1554,9 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         /* Need to move record level consistency pointers if on a block boundary */
         if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
             /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+            if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+                return -1;
+            }
         }
         return writeTemporaryPage(state, state->buffer);
     }
@@ -2134,6 +2136,13 @@ int8_t embedDBFlush(embedDBState *state) {
         result = -1;
     }
 
+    /* Need to move record level consistency pointers if on a block boundary */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+            result = -1;
+        }
+    }
+
     indexPage(state, pageNum);
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 3162b29..2e198ca 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1130,7 +1130,9 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         /* Need to move record level consistency pointers if on a block boundary */
         if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
             /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+            if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+                return -1;
+            }
         }
         return writeTemporaryPage(state, state->buffer);
     }
@@ -1710,6 +1712,13 @@ int8_t embedDBFlush(embedDBState *state) {
         result = -1;
     }
 
+    /* Need to move record level consistency pointers if on a block boundary */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+            result = -1;
+        }
+    }
+
     indexPage(state, pageNum);
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
-- 
2.43.0


From ab4bd5f3a6856d9e1376eda3267a0ae26ab2757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 21/30] fix: desktop file offsets beyond 4 GiB no longer wrap,
 and failed seeks are reported as failures

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..ba93cd7 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,15 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageSize * pageNum, SEEK_SET) != 0)
+        return 0;
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0)
+        return 0;
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -41,17 +43,17 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = fseek(fileInfo->file, (long)startPage * pageSize, SEEK_SET);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
     memset(buffer, 1, memorySize);
 
-- 
2.43.0


From 4daa95104c470a7022208e1f10e8332703bce9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:53 +0000
Subject: [PATCH 22/30] verification hooks: loop markers (expand to nothing) on
 the search, iterator and recovery loops

---
 lib/Distribution/embedDB.c | 14 +++++++-------
 src/embedDB/embedDB.c      | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 18478f6..62eeb80 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -785,7 +785,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     if (!hasData)
         return 0;
 
-    while (moreToRead && count < state->numDataPages) {
+    while (moreToRead && count < state->numDataPages) EMBEDDB_LOOP(embedDBInitDataFromFile) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
         if (validData && logicalPageId == maxLogicalPageId + 1) {
@@ -883,7 +883,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     if (hasPermanentData) {
-        while (moreToRead && count < state->numDataPages) {
+        while (moreToRead && count < state->numDataPages) EMBEDDB_LOOP(rlcRecoveryScan) {
             memcpy(&logicalPageId, buffer, sizeof(id_t));
             validData = logicalPageId % state->numDataPages == count;
             if (validData && logicalPageId == maxLogicalPageId + 1) {
@@ -1096,7 +1096,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     int count = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
-    while (moreToRead && count < state->numIndexPages) {
+    while (moreToRead && count < state->numIndexPages) EMBEDDB_LOOP(embedDBInitIndexFromFile) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
         if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
@@ -1199,7 +1199,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     if (!hasData)
         return 0;
 
-    while (moreToRead && count < state->numVarPages) {
+    while (moreToRead && count < state->numVarPages) EMBEDDB_LOOP(embedDBInitVarDataFromFile) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
         validData = logicalVariablePageId % state->numVarPages == count;
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
@@ -1796,7 +1796,7 @@ id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t rang
 int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {
     int32_t pageError = 0;
     int32_t physPageId;
-    while (1) {
+    while (1) EMBEDDB_LOOP(linearSearch) {
         /* Move logical page number to physical page id based on location of first data page */
         physPageId = pageId % state->numDataPages;
 
@@ -1825,7 +1825,7 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
     uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
     uint32_t pageId = (first + last) / 2;
-    while (1) {
+    while (1) EMBEDDB_LOOP(binarySearch) {
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
@@ -2211,7 +2211,7 @@ int8_t embedDBFlush(embedDBState *state) {
  */
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
-    while (1) {
+    while (1) EMBEDDB_LOOP(embedDBNext) {
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2e198ca..5b64e58 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -361,7 +361,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     if (!hasData)
         return 0;
 
-    while (moreToRead && count < state->numDataPages) {
+    while (moreToRead && count < state->numDataPages) EMBEDDB_LOOP(embedDBInitDataFromFile) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
         if (validData && logicalPageId == maxLogicalPageId + 1) {
@@ -459,7 +459,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     if (hasPermanentData) {
-        while (moreToRead && count < state->numDataPages) {
+        while (moreToRead && count < state->numDataPages) EMBEDDB_LOOP(rlcRecoveryScan) {
             memcpy(&logicalPageId, buffer, sizeof(id_t));
             validData = logicalPageId % state->numDataPages == count;
             if (validData && logicalPageId == maxLogicalPageId + 1) {
@@ -672,7 +672,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     int count = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
-    while (moreToRead && count < state->numIndexPages) {
+    while (moreToRead && count < state->numIndexPages) EMBEDDB_LOOP(embedDBInitIndexFromFile) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
         if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
@@ -775,7 +775,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     if (!hasData)
         return 0;
 
-    while (moreToRead && count < state->numVarPages) {
+    while (moreToRead && count < state->numVarPages) EMBEDDB_LOOP(embedDBInitVarDataFromFile) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
         validData = logicalVariablePageId % state->numVarPages == count;
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
@@ -1372,7 +1372,7 @@ id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t rang
 int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {
     int32_t pageError = 0;
     int32_t physPageId;
-    while (1) {
+    while (1) EMBEDDB_LOOP(linearSearch) {
         /* Move logical page number to physical page id based on location of first data page */
         physPageId = pageId % state->numDataPages;
 
@@ -1401,7 +1401,7 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
     uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
     uint32_t pageId = (first + last) / 2;
-    while (1) {
+    while (1) EMBEDDB_LOOP(binarySearch) {
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
@@ -1787,7 +1787,7 @@ int8_t embedDBFlush(embedDBState *state) {
  */
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
-    while (1) {
+    while (1) EMBEDDB_LOOP(embedDBNext) {
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
-- 
2.43.0


From 8db6f2a361cadb1ced35824550ad6afb782a3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 23/30] fix: once the data file has wrapped, shifting the
 record-level consistency blocks also erases (and drops from the cache) the
 block they move into

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 62eeb80..58508e1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1574,7 +1574,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
-    uint32_t numBlocksToErase = haveWrapped ? 2 : 3;
+    uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5b64e58..732ab01 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1150,7 +1150,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
-    uint32_t numBlocksToErase = haveWrapped ? 2 : 3;
+    uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
-- 
2.43.0


From d02f3334fc742bf4028d3976376fca53ab953f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 24/30] fix: an iterator whose next page was reclaimed
 continues with the oldest retained page instead of reading the page that
 replaced it

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 58508e1..d2a9812 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2212,6 +2212,11 @@ int8_t embedDBFlush(embedDBState *state) {
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
     while (1) EMBEDDB_LOOP(embedDBNext) {
+        if (it->nextDataPage < state->minDataPageId) {
+            // The page was reclaimed since the last call, so continue with the oldest page still stored
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 732ab01..e4a6c18 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1788,6 +1788,11 @@ int8_t embedDBFlush(embedDBState *state) {
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
     while (1) EMBEDDB_LOOP(embedDBNext) {
+        if (it->nextDataPage < state->minDataPageId) {
+            // The page was reclaimed since the last call, so continue with the oldest page still stored
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
-- 
2.43.0


From 891ed20e169ef6e2631636fe4f0602ae053c3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 25/30] fix: reading variable data up to the end of a page made
 the next read return the page header as data

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d2a9812..8df1a4a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2425,6 +2425,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // If the previous read ended at the end of a page, move past the header of the next one
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e4a6c18..04f5e4e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2001,6 +2001,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // If the previous read ended at the end of a page, move past the header of the next one
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
-- 
2.43.0


From 3602f2b469e5393a80ed831d6a8bec2d1e721e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 26/30] fix: embedDBPutVar no longer writes variable-data pages
 without data, whose zero key made lost variable data look available

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8df1a4a..5e22b6a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1641,7 +1641,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+    if (state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && state->currentVarLoc % state->pageSize != state->variableDataHeaderSize)) {
         if (writeVariablePage(state, buf) == -1) {
             return -1;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 04f5e4e..94ad8b9 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1217,7 +1217,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+    if (state->currentVarLoc % state->pageSize == 0 || state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && state->currentVarLoc % state->pageSize != state->variableDataHeaderSize)) {
         if (writeVariablePage(state, buf) == -1) {
             return -1;
         }
-- 
2.43.0


From 4093dd8c0980122c6d326302d45f4d131a0b829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 27/30] fix: recover a wrapped data file whose first block has
 just been erased

---
 lib/Distribution/embedDB.c | 9 ++++-----
 src/embedDB/embedDB.c      | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5e22b6a..b0a3ca0 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -755,6 +755,8 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     bool validData = false;
     bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
+    /* Where the page with the smallest key is: the first valid page, unless the file has wrapped */
+    id_t physicalPageIDOfSmallestData = 0;
 
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readPage(state, physicalPageId));
@@ -769,6 +771,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            physicalPageIDOfSmallestData = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -799,11 +802,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         }
     }
 
-    /*
-     * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
-     */
-    id_t physicalPageIDOfSmallestData = 0;
+    /* Now we need to find where the page with the smallest key that is still valid. */
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 94ad8b9..47e8815 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -331,6 +331,8 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     bool validData = false;
     bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
+    /* Where the page with the smallest key is: the first valid page, unless the file has wrapped */
+    id_t physicalPageIDOfSmallestData = 0;
 
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readPage(state, physicalPageId));
@@ -345,6 +347,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            physicalPageIDOfSmallestData = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -375,11 +378,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         }
     }
 
-    /*
-     * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
-     */
-    id_t physicalPageIDOfSmallestData = 0;
+    /* Now we need to find where the page with the smallest key that is still valid. */
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
-- 
2.43.0


From ef0c2170948e4e8e123885cecdd8cb41e10bf5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:23 +0000
Subject: [PATCH 28/30] fix: record-level consistency recovery erases inside
 the file and does not keep an erased page cached

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b0a3ca0..9dd1c82 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -905,7 +905,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        int8_t eraseSuccess = state->fileInterface->erase(count % state->numDataPages, count % state->numDataPages + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -978,6 +978,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
+    /* the read buffer may hold a page that has just been erased */
+    state->bufferedPageId = -1;
+
     /* if we don't have any permanent data, we can just return now that the record-level consistency records have been handled */
     if (!hasPermanentData) {
         return 0;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 47e8815..ae13025 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -481,7 +481,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        int8_t eraseSuccess = state->fileInterface->erase(count % state->numDataPages, count % state->numDataPages + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -554,6 +554,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
+    /* the read buffer may hold a page that has just been erased */
+    state->bufferedPageId = -1;
+
     /* if we don't have any permanent data, we can just return now that the record-level consistency records have been handled */
     if (!hasPermanentData) {
         return 0;
-- 
2.43.0


From 87119e1a480b0d42c1c5d43dc7afc0262306ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 29/30] fix: recover a wrapped index file whose reclaimed pages
 have been erased

---
 lib/Distribution/embedDB.c | 49 +++++++++++++++++++++++++++++---------
 src/embedDB/embedDB.c      | 49 +++++++++++++++++++++++++++++---------
 2 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9dd1c82..cdde315 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1090,36 +1090,63 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
     id_t physicalIndexPageId = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    bool hasData = false;
+    uint32_t count = 0;
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
-    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    /* The first block may have been erased, in which case the pages start at the second block */
+    for (uint32_t i = 0; moreToRead && i < 2; i++) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        count_t numEntries = EMBEDDB_GET_COUNT(buffer);
+        if (logicalIndexPageId % state->numIndexPages == count && numEntries > 0 && numEntries <= state->maxIdxRecordsPerPage) {
+            hasData = true;
+            break;
+        }
+        physicalIndexPageId += blockSize;
+        count += blockSize;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
+    }
+
+    if (!hasData)
+        return 0;
+
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+    maxLogicaIndexPageId = logicalIndexPageId - 1;
 
     while (moreToRead && count < state->numIndexPages) EMBEDDB_LOOP(embedDBInitIndexFromFile) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (logicalIndexPageId % state->numIndexPages == count && logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
-        return 0;
+    /* If the file has wrapped, the oldest page follows, or is at the next block boundary if the rest of the block has been erased */
+    if (moreToRead && count < state->numIndexPages) {
+        if (logicalIndexPageId != maxLogicaIndexPageId - state->numIndexPages + 1) {
+            physicalIndexPageId = (physicalIndexPageId + blockSize - (count % blockSize)) % state->numIndexPages;
+            if (readIndexPage(state, physicalIndexPageId) != 0) {
+                return -1;
+            }
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        }
+        if (logicalIndexPageId % state->numIndexPages == physicalIndexPageId) {
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+        }
+    }
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ae13025..276613c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -666,36 +666,63 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
     id_t physicalIndexPageId = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    bool hasData = false;
+    uint32_t count = 0;
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
-    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    /* The first block may have been erased, in which case the pages start at the second block */
+    for (uint32_t i = 0; moreToRead && i < 2; i++) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        count_t numEntries = EMBEDDB_GET_COUNT(buffer);
+        if (logicalIndexPageId % state->numIndexPages == count && numEntries > 0 && numEntries <= state->maxIdxRecordsPerPage) {
+            hasData = true;
+            break;
+        }
+        physicalIndexPageId += blockSize;
+        count += blockSize;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
+    }
+
+    if (!hasData)
+        return 0;
+
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+    maxLogicaIndexPageId = logicalIndexPageId - 1;
 
     while (moreToRead && count < state->numIndexPages) EMBEDDB_LOOP(embedDBInitIndexFromFile) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (logicalIndexPageId % state->numIndexPages == count && logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
-        return 0;
+    /* If the file has wrapped, the oldest page follows, or is at the next block boundary if the rest of the block has been erased */
+    if (moreToRead && count < state->numIndexPages) {
+        if (logicalIndexPageId != maxLogicaIndexPageId - state->numIndexPages + 1) {
+            physicalIndexPageId = (physicalIndexPageId + blockSize - (count % blockSize)) % state->numIndexPages;
+            if (readIndexPage(state, physicalIndexPageId) != 0) {
+                return -1;
+            }
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        }
+        if (logicalIndexPageId % state->numIndexPages == physicalIndexPageId) {
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+        }
+    }
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
-- 
2.43.0


From 4cc32b9d50fef8cebdd5f61beee70e0f3ce52915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 30/30] fix: recover variable data of a single page for key 0
 and of a file whose first block has just been erased

---
 lib/Distribution/embedDB.c | 17 ++++++++++-------
 src/embedDB/embedDB.c      | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cdde315..2753c9d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1192,6 +1192,9 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
+    /* Where the page with the smallest key is: the first valid page, unless the file has wrapped */
+    id_t physicalPageIDOfSmallestData = 0;
+
     /* This will equal 0 if there are no pages to read */
     int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
@@ -1210,9 +1213,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              */
             if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
                 i = 2;
-                hasData = true;
-                maxLogicalVariablePageId = logicalVariablePageId;
             }
+            /* It is the only page if there is no next page */
+            if (!hasData) {
+                physicalPageIDOfSmallestData = physicalVariablePageId;
+            }
+            hasData = true;
+            maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
             count++;
         } else {
@@ -1241,11 +1248,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         }
     }
 
-    /*
-     * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
-     */
-    id_t physicalPageIDOfSmallestData = 0;
+    /* Now we need to find where the page with the smallest key that is still valid. */
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 276613c..5b746e0 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -768,6 +768,9 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
+    /* Where the page with the smallest key is: the first valid page, unless the file has wrapped */
+    id_t physicalPageIDOfSmallestData = 0;
+
     /* This will equal 0 if there are no pages to read */
     int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
@@ -786,9 +789,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              */
             if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
                 i = 2;
-                hasData = true;
-                maxLogicalVariablePageId = logicalVariablePageId;
             }
+            /* It is the only page if there is no next page */
+            if (!hasData) {
+                physicalPageIDOfSmallestData = physicalVariablePageId;
+            }
+            hasData = true;
+            maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
             count++;
         } else {
@@ -817,11 +824,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         }
     }
 
-    /*
-     * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
-     */
-    id_t physicalPageIDOfSmallestData = 0;
+    /* Now we need to find where the page with the smallest key that is still valid. */
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
-- 
2.43.0

