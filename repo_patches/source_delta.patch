From d92179ec6bb6f85e9f79c66004c8ee8803883202 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 01/70] fix: EMA streaming state seeds and warms up like the
 batch EMA

With a non-zero unstable period the bar completing the SMA seed was applied
twice; under Metastock compatibility with period 1 the first bar produced no
output although the batch function has one.
---
 ta-lib-rt/c/src/ta_func/ta_EMA.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..1f2c8d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -514,15 +514,18 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
                       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                   }
 
-                } else
-                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                }
+              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
          }
           else {
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+              return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
             }
       }
 
-- 
2.43.0


From 9d4b89a7779b5f1d7b8b1b11c14ef61b2441bb51 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 02/70] fix: T3 streaming state matches the batch T3 with an
 unstable period and with period 1

The bar completing the last seed was applied twice when more warm-up was
needed, the first output skipped one update, and period 1 never produced
the first output.
---
 ta-lib-rt/c/src/ta_func/ta_T3.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..c055db5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -487,8 +487,14 @@
        {
            STATE.e1 = STATE.tempReal / STATE.optInTimePeriod;
            STATE.tempReal = STATE.e1;
+           if (STATE.optInTimePeriod == 1) /* All the EMAs are seeded by the first bar. */
+               STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = STATE.e1;
        }
-       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+       if (STATE.optInTimePeriod > 1 || NEED_MORE_DATA)
+           return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+       STATE.firstOutput = 1;
+       VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
+       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    } else
        if ((int)_cur_idx < 2*STATE.optInTimePeriod-1)
        {
@@ -552,8 +558,12 @@
                            {
                                STATE.e6 = STATE.tempReal / STATE.optInTimePeriod;
                                STATE.tempReal = STATE.e6;
-                           } else
+                           }
+                           if (NEED_MORE_DATA)
                                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                           STATE.firstOutput = 1;
+                           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
+                           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                        }
 
    if (NEED_MORE_DATA)
@@ -566,13 +576,7 @@
    STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
    STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   } else
-       if (STATE.firstOutput == 0)
-       {
-           STATE.firstOutput = 1;
-           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
-           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-       }
+   }
 
    STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
    STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-- 
2.43.0


From 4bb67c66d1a2c742d6460dcf5197322b3cb861d6 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 03/70] fix: TRIMA streaming state handles periods 1 and 3

Period 3 read the middle bar before it was stored and period 1 used an
unallocated memory.
---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..8b86f45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -582,6 +582,12 @@ double tempReal;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   if (STATE.optInTimePeriod == 1)
+   { /* No smoothing and no memory allocated. */
+       VALUE_HANDLE_DEREF(outReal) = inReal;
+       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    if (FIRST_LAUNCH)
     {
     STATE.numerator = 0;
@@ -642,6 +648,7 @@ double tempReal;
    /* Step (1) */
    STATE.numerator    -= STATE.numeratorSub;
    STATE.numeratorSub -= POP_FROM_MEM(inReal);
+   PUSH_TO_MEM(inReal, inReal); /* Period 3: the new bar is the next middle. */
 
    middle = STATE.middleIdx++ % STATE.mem_size;
    tempReal = MEM_IDX_NS(inReal, middle);
@@ -657,10 +664,6 @@ double tempReal;
        STATE.numerator +=  STATE.numeratorAdd;
    }
 
-
-
-   PUSH_TO_MEM(inReal, inReal);
-
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From 318843fa89ab1846a762c4d109479b88f30067f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 04/70] fix: APO and PPO streaming states accept every moving
 average type

---
 ta-lib-rt/c/src/ta_func/ta_APO.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..946cd5d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -519,7 +519,7 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-- 
2.43.0


From 7c6f2ea5d0ca3f170c997a9538078796f34a6c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 05/70] fix: SMA streaming state does not touch an empty
 history buffer with period 1

---
 ta-lib-rt/c/src/ta_func/ta_SMA.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 768a6b0..e4c400a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -400,8 +400,11 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 
   VALUE_HANDLE_DEREF(outReal) = STATE.periodTotal / STATE.optInTimePeriod;
 
-  STATE.periodTotal -= POP_FROM_MEM(inReal);
-  PUSH_TO_MEM(inReal,inReal);
+  if (MEM_SIZE > 0) {
+    STATE.periodTotal -= POP_FROM_MEM(inReal);
+    PUSH_TO_MEM(inReal,inReal);
+  } else
+    STATE.periodTotal = 0;
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
-- 
2.43.0


From 7c69df0a7b7cd91d916fb4963a345f8a0cc3a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 06/70] fix: STOCH and STOCHF streaming states handle a one-bar
 fast-K window

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 4 +++-
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..2f91e49 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -710,7 +710,7 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-                if (FIRST_LAUNCH)
+                if (FIRST_LAUNCH || MEM_SIZE == 0)
                    {
                      STATE.lowest = inLow;
                      STATE.highest = inHigh;
@@ -766,8 +766,10 @@
                             STATE.highest_exp = MEM_SIZE;
                         }
 
+   if (MEM_SIZE > 0) {
    PUSH_TO_MEM(inHigh,inHigh);
    PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..4255aa0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -652,7 +652,7 @@ TA_RetCode retCode;
 
 
    /* insert state based TA func code here. */
-                if (FIRST_LAUNCH)
+                if (FIRST_LAUNCH || MEM_SIZE == 0)
                    {
                      STATE.lowest = inLow;
                      STATE.highest = inHigh;
@@ -708,8 +708,10 @@ TA_RetCode retCode;
                             STATE.highest_exp = MEM_SIZE;
                         }
 
+   if (MEM_SIZE > 0) {
    PUSH_TO_MEM(inHigh,inHigh);
    PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-- 
2.43.0


From 6716b591bb2547575ce51aa513f669aaa30ccc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/70] fix: AVGDEV streaming state averages over the full
 period

---
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..c020385 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -340,11 +340,9 @@
    }
 
 
-   STATE.sum -= POP_FROM_MEM(inReal);
    STATE.sum += inReal;
-   PUSH_TO_MEM(inReal, inReal);
 
-   temp = 0.0;
+   temp = std_fabs(inReal - STATE.sum / STATE.optInTimePeriod);
 
    FOR_ALL_MEM(i) {
        temp += std_fabs(MEM_IDX_NS(inReal,i) - STATE.sum / STATE.optInTimePeriod);
@@ -352,6 +350,12 @@
 
    VALUE_HANDLE_DEREF(outReal) = temp / STATE.optInTimePeriod;
 
+   if (MEM_SIZE > 0) {
+      STATE.sum -= POP_FROM_MEM(inReal);
+      PUSH_TO_MEM(inReal, inReal);
+   } else
+      STATE.sum = 0;
+
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From e29299da8c9bddc954942cfece01fe7389ff072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 08/70] fix: BETA streaming state does not touch an empty
 history buffer with period 1

---
 ta-lib-rt/c/src/ta_func/ta_BETA.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 3f0df77..9467e93 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -473,7 +473,7 @@ double x,y,temp;
     return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
   }
 
-  temp = POP_FROM_MEM(inReal0);
+  temp = MEM_SIZE > 0 ? POP_FROM_MEM(inReal0) : inReal0;
 
   if( !TA_IS_ZERO(STATE.last_price_x) )
      x = (temp-STATE.last_price_x)/STATE.last_price_x;
@@ -481,7 +481,7 @@ double x,y,temp;
      x = 0.0;
   STATE.last_price_x = temp;
 
-  temp = POP_FROM_MEM(inReal1);
+  temp = MEM_SIZE > 0 ? POP_FROM_MEM(inReal1) : inReal1;
 
   if( !TA_IS_ZERO(STATE.last_price_y) )
      y = (temp-STATE.last_price_y)/STATE.last_price_y;
@@ -503,8 +503,10 @@ double x,y,temp;
   STATE.S_x -= x;
   STATE.S_y -= y;
 
-  PUSH_TO_MEM(inReal0,inReal0);
-  PUSH_TO_MEM(inReal1,inReal1);
+  if (MEM_SIZE > 0) {
+    PUSH_TO_MEM(inReal0,inReal0);
+    PUSH_TO_MEM(inReal1,inReal1);
+  }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
-- 
2.43.0


From 06f62ba38fb6ca2cc06492ea3a8808a3eb6f3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 09/70] fix: CORREL streaming state does not touch an empty
 history buffer with period 1

---
 ta-lib-rt/c/src/ta_func/ta_CORREL.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index daef286..0d24c78 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -421,11 +421,13 @@
    else
       VALUE_HANDLE_DEREF(outReal) = 0.0;
 
-   x=POP_FROM_MEM(inReal0);
-   y=POP_FROM_MEM(inReal1);
+   x = MEM_SIZE > 0 ? POP_FROM_MEM(inReal0) : inReal0;
+   y = MEM_SIZE > 0 ? POP_FROM_MEM(inReal1) : inReal1;
    ADDDATA(x, y, -1)
-   PUSH_TO_MEM(inReal0, inReal0);
-   PUSH_TO_MEM(inReal1, inReal1);
+   if (MEM_SIZE > 0) {
+     PUSH_TO_MEM(inReal0, inReal0);
+     PUSH_TO_MEM(inReal1, inReal1);
+   }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
-- 
2.43.0


From 8fa53ebf73e9193767488d4ad25544ffa166f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 10/70] fix: VAR streaming state does not touch an empty
 history buffer with period 1

---
 ta-lib-rt/c/src/ta_func/ta_VAR.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index ccfe33b..a62e593 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -464,11 +464,13 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 
     VALUE_HANDLE_DEREF(outReal) = meanValue2 - meanValue1 * meanValue1;
 
-    tempReal = POP_FROM_MEM(inReal);
+    tempReal = MEM_SIZE > 0 ? POP_FROM_MEM(inReal) : inReal;
     STATE.periodTotal1 -= tempReal;
     STATE.periodTotal2 -= tempReal*tempReal;
 
-    PUSH_TO_MEM(inReal,inReal);
+    if (MEM_SIZE > 0) {
+      PUSH_TO_MEM(inReal,inReal);
+    }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
-- 
2.43.0


From 3fdf8b50cffb37bf83bca92e5f1c952225847613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 11/70] fix: WMA streaming state does not touch an empty
 history buffer with period 1

---
 ta-lib-rt/c/src/ta_func/ta_WMA.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..0e9d3a0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -435,8 +435,10 @@
     VALUE_HANDLE_DEREF(outReal) = STATE.periodSum / STATE.divider;
 
     STATE.periodSum -= STATE.periodSub;
-    STATE.periodSub -= POP_FROM_MEM(inReal);
-    PUSH_TO_MEM(inReal,inReal);
+    STATE.periodSub -= MEM_SIZE > 0 ? POP_FROM_MEM(inReal) : inReal;
+    if (MEM_SIZE > 0) {
+      PUSH_TO_MEM(inReal,inReal);
+    }
 
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 0f791fcccb789bc6b7cb0329f8e09ef29133055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 12/70] fix: BBANDS streaming state waits for the middle band
 moving average

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..c712536 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -574,6 +574,9 @@
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
+   /* The middle band moving average may need more bars than the deviation. */
+   if (NEED_MORE_DATA)
+      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    VALUE_HANDLE_DEREF(outRealMiddleBand) = tempReal2;
 
-- 
2.43.0


From c0e0d15d4644e7401b9063483df485d6967cb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 13/70] fix: BBANDS aligns a MAMA middle band with its
 deviation for periods above 33

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index c712536..7f72f95 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -99,6 +99,7 @@
 /**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   int lookbackMA, lookbackSTDDEV;
 
 /**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -132,8 +133,13 @@
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, unless
+    * its own lookback does not depend on the period (MAMA) and the
+    * standard deviation needs more bars.
+    */
+   lookbackMA = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   lookbackSTDDEV = LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 );
+   return max( lookbackMA, lookbackSTDDEV );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -213,7 +219,7 @@
 {
    /* Insert local variables here. */
    ENUM_DECLARATION(RetCode) retCode;
-   int i;
+   int i, maBegIdx;
    double tempReal, tempReal2;
    ARRAY_REF(tempBuffer1);
    ARRAY_REF(tempBuffer2);
@@ -338,6 +344,7 @@
    else
    {
       /* Calculate the Standard Deviation */
+      maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx);
       retCode = FUNCTION_CALL(STDDEV)( (int)VALUE_HANDLE_DEREF(outBegIdx), endIdx, inReal,
                                        optInTimePeriod, 1.0,
                                        outBegIdx, outNBElement, tempBuffer2 );
@@ -347,6 +354,13 @@
          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
          return retCode;
       }
+
+      /* Drop the leading moving averages for which there is no deviation. */
+      maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx) - maBegIdx;
+      if( maBegIdx > 0 )
+      {
+         ARRAY_MEMMOVE( tempBuffer1, 0, tempBuffer1, maBegIdx, (int)VALUE_HANDLE_DEREF(outNBElement) );
+      }
    }
 
    /* Copy the MA calculation into the middle band ouput, unless
-- 
2.43.0


From 3ce1d8d5c14fcfd382e19147d842934f0657a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 14/70] fix: ATR streaming state honours the unstable period
 with period 1

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..700fb2c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -370,12 +370,6 @@ TA_RetCode retCode;
 
    /* insert state init code here. */
 
-        if( optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_INIT(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
-        }
-
    retCode = FUNCTION_CALL_STATE_INIT(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
    return FUNCTION_CALL_STATE_INIT(SMA)( (struct TA_SMA_State**) &STATE_P.StateSMA, optInTimePeriod );
@@ -407,12 +401,6 @@ TA_RetCode retCode;
    /* insert local variable here */
 
 
-             if( STATE.optInTimePeriod <= 1 )
-             {
-                /* No smoothing needed. Just do a TRANGE. */
-                return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-             }
-
              TA_RetCode retCode;
 #define TA_ATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal, tempATR;
@@ -587,10 +575,8 @@ double tempReal, tempATR;
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
-        if( STATE_P.optInTimePeriod > 1 ) {
-            retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.StateSMA );
-            if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
-        }
+        retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.StateSMA );
+        if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
-- 
2.43.0


From c278736a2aef2956a380d5fe9a893016372c70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 15/70] fix: NATR streaming state honours the unstable period
 with period 1

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..2b55594 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -392,12 +392,6 @@ TA_RetCode retCode;
 
    /* insert state init code here. */
 
-        if( optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_INIT(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
-        }
-
    retCode = FUNCTION_CALL_STATE_INIT(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
    return FUNCTION_CALL_STATE_INIT(SMA)( (struct TA_SMA_State**) &STATE_P.StateSMA, optInTimePeriod );
@@ -430,12 +424,6 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-        }
-
         TA_RetCode retCode;
 #define TA_NATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal, tempATR;
@@ -492,7 +480,9 @@ double tempReal, tempATR;
         if (NEED_MORE_DATA)
         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
-        if( !TA_IS_ZERO(inClose) )
+        if( STATE.optInTimePeriod <= 1 ) /* Like the batch: just a TRANGE. */
+        VALUE_HANDLE_DEREF(outReal) = STATE.prevATR;
+        else if( !TA_IS_ZERO(inClose) )
         VALUE_HANDLE_DEREF(outReal) = (STATE.prevATR/inClose)*100.0;
         else VALUE_HANDLE_DEREF(outReal) = 0.;
 
@@ -604,12 +594,6 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
-
         TA_RetCode retCode;
 
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
-- 
2.43.0


From 4e9020ec596991a21f9aeddf33b90188dd85384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 16/70] fix: LINEARREG streaming state computes the regression
 the batch computes

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..be129ad 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -368,14 +368,14 @@
 
    if (NEED_MORE_DATA)
    {
+       STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
        STATE.SumY += inReal;
-       STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
       PUSH_TO_MEM(inReal,inReal);
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    }
 
+   STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
    STATE.SumY += inReal;
-   STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
    m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
    b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@
 
    tempReal = POP_FROM_MEM(inReal);
    STATE.SumY -= tempReal;
-   STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+   STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
    PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From e1e910eac46984754a35a97f0dabf7597443499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 17/70] fix: LINEARREG_SLOPE streaming state computes the
 regression the batch computes

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..22f5f29 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -323,7 +323,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_SLOPE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -365,20 +365,20 @@ double tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         VALUE_HANDLE_DEREF(outReal) = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From e40df95b5463ce36cd3cb452845f744b42b422c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 18/70] fix: LINEARREG_INTERCEPT streaming state computes the
 regression the batch computes

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..a57678b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -325,7 +325,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_INTERCEPT_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -367,14 +367,14 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
@@ -382,7 +382,7 @@ double m, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 8aec4a20ba0b60ec7973d577180d7ed7ec109361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 19/70] fix: LINEARREG_ANGLE streaming state computes the
 regression the batch computes

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..4d323a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -327,7 +327,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_ANGLE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -369,21 +369,21 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         VALUE_HANDLE_DEREF(outReal) = std_atan(m) * ( 180.0 / PI );
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From f59843766a38c5297cbdb15b1562f527fafe3392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 20/70] fix: TSF streaming state computes the regression the
 batch computes

---
 ta-lib-rt/c/src/ta_func/ta_TSF.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..f71b902 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -326,7 +326,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_TSF_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, b, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -368,14 +368,14 @@ double m, b, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // at the end shall be (0*z + ... + (i-2)*b + (i-1)*a)
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@ double m, b, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From e8b1c44e2cbce9cd1a1ede3fb88d83eaa90e5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 21/70] fix: SUM streaming state returns the sum over the full
 period

---
 ta-lib-rt/c/src/ta_func/ta_SUM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..d31b31e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -357,10 +357,10 @@
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    } else {             
-       _state->tempSum -= POP_FROM_MEM(inReal);
        _state->tempSum += inReal;
+       VALUE_HANDLE_DEREF(outReal) = _state->tempSum;
+       _state->tempSum -= POP_FROM_MEM(inReal);
        PUSH_TO_MEM(inReal,inReal);
-       VALUE_HANDLE_DEREF(outReal) = inReal;
        return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    }
 
-- 
2.43.0


From 2e43bcbb8432db71e89569b706294b3bedafafc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 22/70] fix: MAXINDEX reports the most recent of equal extrema
 for every range and in the stream

---
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..a26df1b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -233,7 +233,7 @@
         while( ++i<=today )
         {
            tmp = inReal[i];
-           if( tmp > highest )
+           if( tmp >= highest )
            {
               highestIdx = i;
               highest = tmp;
@@ -374,7 +374,7 @@ if (NEED_MORE_DATA) {
 
         for (i = _cur_idx; i < MEM_SIZE; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (STATE.max < val) {
+            if (STATE.max < val || (STATE.max == val && STATE.maxIdx != STATE.mem_index)) {
                 STATE.maxIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
                 STATE.max = val;
             }
@@ -382,7 +382,7 @@ if (NEED_MORE_DATA) {
 
         for (i = 0; i < _cur_idx; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (STATE.max < val) {
+            if (STATE.max < val || (STATE.max == val && STATE.maxIdx != STATE.mem_index)) {
                 STATE.maxIdx = STATE.mem_index - (_cur_idx - i);
                 STATE.max = val;
             }
@@ -717,7 +717,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmp = inReal[i];
-/* Generated */            if( tmp > highest )
+/* Generated */            if( tmp >= highest )
 /* Generated */            {
 /* Generated */               highestIdx = i;
 /* Generated */               highest = tmp;
-- 
2.43.0


From 038d60f1dd02f0da4c6b9224c2bfb756b50dd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 23/70] fix: MININDEX reports the most recent of equal extrema
 for every range and in the stream

---
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..48a8783 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -233,7 +233,7 @@
         while( ++i<=today )
         {
            tmp = inReal[i];
-           if( tmp < lowest )
+           if( tmp <= lowest )
            {
               lowestIdx = i;
               lowest = tmp;
@@ -375,7 +375,7 @@
 
             for (i = _cur_idx; i < MEM_SIZE; i++) {
                 val = MEM_IDX_NS(inReal, i);
-                if (STATE.min > val) {
+                if (STATE.min > val || (STATE.min == val && STATE.minIdx != STATE.mem_index)) {
                     STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
                     STATE.min = val;
                 }
@@ -383,7 +383,7 @@
 
             for (i = 0; i < _cur_idx; i++) {
                 val = MEM_IDX_NS(inReal, i);
-                if (STATE.min > val) {
+                if (STATE.min > val || (STATE.min == val && STATE.minIdx != STATE.mem_index)) {
                     STATE.minIdx = STATE.mem_index - (_cur_idx - i);
                     STATE.min = val;
                 }
@@ -719,7 +719,7 @@
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmp = inReal[i];
-/* Generated */            if( tmp < lowest )
+/* Generated */            if( tmp <= lowest )
 /* Generated */            {
 /* Generated */               lowestIdx = i;
 /* Generated */               lowest = tmp;
-- 
2.43.0


From 45c561c8bf2b3c80609c786fc49699885d3960ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 24/70] fix: MINMAXINDEX reports the most recent of equal
 extrema for every range and in the stream

---
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..2be8afb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -242,7 +242,7 @@
         while( ++i<=today )
         {
            tmpHigh = inReal[i];
-           if( tmpHigh > highest )
+           if( tmpHigh >= highest )
            {
               highestIdx = i;
               highest = tmpHigh;
@@ -263,7 +263,7 @@
         while( ++i<=today )
         {
            tmpLow = inReal[i];
-           if( tmpLow < lowest )
+           if( tmpLow <= lowest )
            {
               lowestIdx = i;
               lowest = tmpLow;
@@ -400,10 +400,12 @@
 if (FIRST_LAUNCH) {
     STATE.max = STATE.min = inReal;
     STATE.maxIdx = STATE.minIdx = STATE.mem_index;
-} else if (STATE.min >= inReal) {
+}
+if (STATE.min >= inReal) {
     STATE.min = inReal;
     STATE.minIdx = STATE.mem_index;
-} else if (STATE.max <= inReal) {
+}
+if (STATE.max <= inReal) {
     STATE.max = inReal;
     STATE.maxIdx = STATE.mem_index;
 }
@@ -430,11 +432,11 @@ if (NEED_MORE_DATA) {
 
         for (i = _cur_idx; i < MEM_SIZE; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (find_min && STATE.min > val) {
+            if (find_min && (STATE.min > val || (STATE.min == val && STATE.minIdx != STATE.mem_index))) {
                 STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
                 STATE.min = val;
             }
-            if (find_max && STATE.max < val) {
+            if (find_max && (STATE.max < val || (STATE.max == val && STATE.maxIdx != STATE.mem_index))) {
                 STATE.maxIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
                 STATE.max = val;
             }
@@ -442,11 +444,11 @@ if (NEED_MORE_DATA) {
 
         for (i = 0; i < _cur_idx; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (find_min && STATE.min > val) {
+            if (find_min && (STATE.min > val || (STATE.min == val && STATE.minIdx != STATE.mem_index))) {
                 STATE.minIdx = STATE.mem_index - (_cur_idx - i);
                 STATE.min = val;
             }
-            if (find_max && STATE.max < val) {
+            if (find_max && (STATE.max < val || (STATE.max == val && STATE.maxIdx != STATE.mem_index))) {
                 STATE.maxIdx = STATE.mem_index - (_cur_idx - i);
                 STATE.max = val;
             }
@@ -813,7 +815,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmpHigh = inReal[i];
-/* Generated */            if( tmpHigh > highest )
+/* Generated */            if( tmpHigh >= highest )
 /* Generated */            {
 /* Generated */               highestIdx = i;
 /* Generated */               highest = tmpHigh;
@@ -833,7 +835,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmpLow = inReal[i];
-/* Generated */            if( tmpLow < lowest )
+/* Generated */            if( tmpLow <= lowest )
 /* Generated */            {
 /* Generated */               lowestIdx = i;
 /* Generated */               lowest = tmpLow;
-- 
2.43.0


From c508808a117225823615cae096de2c027ab7f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 25/70] fix: ULTOSC streaming state handles a period of one bar

---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..27a580a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -582,6 +582,9 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.b1Total += trueRange;
     }
 
+    /* Stored first: a period of one bar removes the current bar. */
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
     if (!(NEED_MORE_DATA))
     {
         tempDouble = 0.0;
@@ -603,8 +606,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.a1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodA, idx);
         STATE.b1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodB, idx);
 }
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
 
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodA);
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodB);
-- 
2.43.0


From d8b4f16ce8d6fdf299fe7fbd453cadb333bcfdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 26/70] fix: KAMA streaming state uses its own window when an
 unstable period is set

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..ebab907 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -485,11 +485,11 @@
 
      if (((int)STATE.mem_index-1) > STATE.optInTimePeriod)
      {
-         STATE.sumROC1 -= std_fabs(STATE.trailingValue-POP_FROM_MEM(inReal));
+         STATE.sumROC1 -= std_fabs(STATE.trailingValue-MEM_IDX_NS(inReal, GET_LOCAL_IDX(-STATE.optInTimePeriod)));
          STATE.sumROC1 += std_fabs(inReal-STATE.yestReal);
      }
 
-    STATE.trailingValue = POP_FROM_MEM(inReal);
+    STATE.trailingValue = MEM_IDX_NS(inReal, GET_LOCAL_IDX(-STATE.optInTimePeriod));
     periodROC = inReal - STATE.trailingValue;
 
 
-- 
2.43.0


From 7f04ede61247a089a6105b5ab17467c5c8d36e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 27/70] fix: WLMA streaming state seeds and warms up like the
 batch WLMA

---
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..d951e5a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -511,15 +511,18 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
                       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                   }
 
-                } else
-                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                }
+              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
          }
           else {
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+              return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
             }
       }
 
-- 
2.43.0


From 9f5646ccfc2e0b545bc2beb6a75ffcb0dc8fb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 28/70] fix: SAREXT streaming state produces no output on the
 first bar with a start value

---
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..933df34 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -888,6 +888,8 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
              {
               STATE.newHigh = inHigh;
               STATE.newLow = inLow;
+              if(STATE.optInStartValue != 0)
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
              }
 
              if(STATE.optInStartValue == 0)
-- 
2.43.0


From 66b5ca18a4583c72605a220effa8e5bf8f9580f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 29/70] fix: MACDEXT streaming state handles a fast average
 with the larger lookback

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..f74b454 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -655,10 +655,15 @@ int tempInteger, tempInteger2;
            tempInteger2 = LOOKBACK_CALL(MA)( STATE.optInFastPeriod, STATE.optInFastMAType );
            if (tempInteger2 < 0) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-           STATE.fastMADelay = abs( tempInteger - tempInteger2 );
+           /* Like the batch, start the MA with the smaller lookback later.
+            * A negative delay applies to the slow MA.
+            */
+           STATE.fastMADelay = tempInteger - tempInteger2;
          }
 
         /* Calculate the slow MA.  */
+        retCode1 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+        if (-STATE.fastMADelay < (int) STATE.mem_index)
         retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
 
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
-- 
2.43.0


From a552c1315a49a6b10ba05d0d9800357cf66e2b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 30/70] fix: MACDEXT streaming state seeds metastock EMA and
 WLMA from the first bar

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index f74b454..08177c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -659,6 +659,14 @@ int tempInteger, tempInteger2;
             * A negative delay applies to the slow MA.
             */
            STATE.fastMADelay = tempInteger - tempInteger2;
+
+           /* Metastock seeds these with the very first bar of all the data. */
+           if( TA_GLOBALS_COMPATIBILITY != ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default) )
+           {
+              tempInteger = (STATE.fastMADelay > 0)? STATE.optInFastMAType : STATE.optInSlowMAType;
+              if( tempInteger == ENUM_VALUE(MAType,TA_MAType_EMA,Ema) || tempInteger == ENUM_VALUE(MAType,TA_MAType_WLMA,Wlma) )
+                 STATE.fastMADelay = 0;
+           }
          }
 
         /* Calculate the slow MA.  */
-- 
2.43.0


From 47c1db44cd9a95dec72d19cbfec9b6ea2d9f79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 31/70] fix: BBANDS: apply the MA/STDDEV alignment to the
 single-precision copy as well

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 7f72f95..d801845 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -952,7 +952,7 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /* Generated */ {
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
-/* Generated */    int i;
+/* Generated */    int i, maBegIdx;
 /* Generated */    double tempReal, tempReal2;
 /* Generated */    ARRAY_REF(tempBuffer1);
 /* Generated */    ARRAY_REF(tempBuffer2);
@@ -1028,12 +1028,13 @@ TA_RetCode retCode;
 /* Generated */    }
 /* Generated */    if( optInMAType == ENUM_VALUE(MAType,TA_MAType_SMA,Sma) )
 /* Generated */    {
-/* Generated */        FUNCTION_CALL(INT_stddev_using_precalc_ma)( inReal, tempBuffer1, 
+/* Generated */        FUNCTION_CALL(INT_stddev_using_precalc_ma)( inReal, tempBuffer1,
 /* Generated */                                                    (int)VALUE_HANDLE_DEREF(outBegIdx), (int)VALUE_HANDLE_DEREF(outNBElement),
 /* Generated */                                                    optInTimePeriod, tempBuffer2 );
 /* Generated */    }
 /* Generated */    else
 /* Generated */    {
+/* Generated */       maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx);
 /* Generated */       retCode = FUNCTION_CALL(STDDEV)( (int)VALUE_HANDLE_DEREF(outBegIdx), endIdx, inReal,
 /* Generated */                                        optInTimePeriod, 1.0,
 /* Generated */                                        outBegIdx, outNBElement, tempBuffer2 );
@@ -1042,6 +1043,11 @@ TA_RetCode retCode;
 /* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */          return retCode;
 /* Generated */       }
+/* Generated */       maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx) - maBegIdx;
+/* Generated */       if( maBegIdx > 0 )
+/* Generated */       {
+/* Generated */          ARRAY_MEMMOVE( tempBuffer1, 0, tempBuffer1, maBegIdx, (int)VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */       }
 /* Generated */    }
 /* Generated */    #if !defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       if( tempBuffer1 != outRealMiddleBand )
-- 
2.43.0


From d47c4b720933372601b034e2695d38723d3d7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 32/70] fix: MAVP: batch read past its intermediate output when
 MinPeriod > MaxPeriod

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..ad99428 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -280,7 +280,8 @@
       tempInt = (int)(inPeriods[startIdx+i]);
 	  if( tempInt < optInMinPeriod )
 		  tempInt = optInMinPeriod;
-	  else if( tempInt > optInMaxPeriod )
+	  /* The maximum decides last: the lookback is calculated with it. */
+	  if( tempInt > optInMaxPeriod )
           tempInt = optInMaxPeriod;
       localPeriodArray[i] = tempInt;
    }
@@ -803,8 +804,8 @@ TA_RetCode retCode;
 /* Generated */    {
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
-/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);      
-/* Generated */    }   
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
@@ -813,7 +814,7 @@ TA_RetCode retCode;
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
 /* Generated */ 	  if( tempInt < optInMinPeriod )
 /* Generated */ 		  tempInt = optInMinPeriod;
-/* Generated */ 	  else if( tempInt > optInMaxPeriod )
+/* Generated */ 	  if( tempInt > optInMaxPeriod )
 /* Generated */           tempInt = optInMaxPeriod;
 /* Generated */       localPeriodArray[i] = tempInt;
 /* Generated */    }
@@ -838,10 +839,10 @@ TA_RetCode retCode;
 /* Generated */ 		   {
 /* Generated */ 			   if( localPeriodArray[j] == curPeriod )
 /* Generated */ 			   {
-/* Generated */ 				   localPeriodArray[j] = 0; 
+/* Generated */ 				   localPeriodArray[j] = 0;
 /* Generated */ 				   outReal[j] = localOutputArray[j];
 /* Generated */ 			   }
-/* Generated */ 		   }		   
+/* Generated */ 		   }
 /* Generated */ 	   }
 /* Generated */    }
 /* Generated */    ARRAY_FREE(localOutputArray);
-- 
2.43.0


From 0d0f8fa53e75c128ffa2a594da306b29827a88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 33/70] fix: MAVP: input was overwritten while still in use
 when outReal is inReal

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index ad99428..92433c8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -187,6 +187,7 @@
    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
    ARRAY_INT_REF(localPeriodArray);
    ARRAY_REF(localOutputArray);
+   ARRAY_REF(localResultArray);
    VALUE_HANDLE_INT(localBegIdx);
    VALUE_HANDLE_INT(localNbElement);
    ENUM_DECLARATION(RetCode) retCode;
@@ -270,6 +271,7 @@
 
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
+   ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 
    /* Copy caller array of period into local buffer.
@@ -312,25 +314,30 @@
            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 		   {
               ARRAY_FREE(localOutputArray);
+              ARRAY_FREE(localResultArray);
 			  ARRAY_INT_FREE(localPeriodArray);
               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
               return retCode;
 	       }
 		   
-		   outReal[i] = localOutputArray[i];
+		   localResultArray[i] = localOutputArray[i];
 		   for( j=i+1; j < outputSize; j++ )
 		   {
 			   if( localPeriodArray[j] == curPeriod )
 			   {
 				   localPeriodArray[j] = 0; /* Flag to avoid recalculation */
-				   outReal[j] = localOutputArray[j];
+				   localResultArray[j] = localOutputArray[j];
 			   }
 		   }		   
 	   }
    }
 
+   /* outReal may be the same buffer as inReal: write it only now. */
+   ARRAY_MEMMOVE(outReal,0,localResultArray,0,outputSize);
+
    ARRAY_FREE(localOutputArray);
+   ARRAY_FREE(localResultArray);
    ARRAY_INT_FREE(localPeriodArray);
 
    /* Done. Inform the caller of the success. */
@@ -756,6 +763,7 @@ TA_RetCode retCode;
 /* Generated */    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
 /* Generated */    ARRAY_INT_REF(localPeriodArray);
 /* Generated */    ARRAY_REF(localOutputArray);
+/* Generated */    ARRAY_REF(localResultArray);
 /* Generated */    VALUE_HANDLE_INT(localBegIdx);
 /* Generated */    VALUE_HANDLE_INT(localNbElement);
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
@@ -808,6 +816,7 @@ TA_RetCode retCode;
 /* Generated */    }
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
@@ -829,23 +838,26 @@ TA_RetCode retCode;
 /* Generated */            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */ 		   {
 /* Generated */               ARRAY_FREE(localOutputArray);
+/* Generated */               ARRAY_FREE(localResultArray);
 /* Generated */ 			  ARRAY_INT_FREE(localPeriodArray);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */               return retCode;
 /* Generated */ 	       }
-/* Generated */ 		   outReal[i] = localOutputArray[i];
+/* Generated */ 		   localResultArray[i] = localOutputArray[i];
 /* Generated */ 		   for( j=i+1; j < outputSize; j++ )
 /* Generated */ 		   {
 /* Generated */ 			   if( localPeriodArray[j] == curPeriod )
 /* Generated */ 			   {
 /* Generated */ 				   localPeriodArray[j] = 0;
-/* Generated */ 				   outReal[j] = localOutputArray[j];
+/* Generated */ 				   localResultArray[j] = localOutputArray[j];
 /* Generated */ 			   }
 /* Generated */ 		   }
 /* Generated */ 	   }
 /* Generated */    }
+/* Generated */    ARRAY_MEMMOVE(outReal,0,localResultArray,0,outputSize);
 /* Generated */    ARRAY_FREE(localOutputArray);
+/* Generated */    ARRAY_FREE(localResultArray);
 /* Generated */    ARRAY_INT_FREE(localPeriodArray);
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    VALUE_HANDLE_DEREF(outNBElement) = outputSize;
-- 
2.43.0


From c4f80315868f71cdcbc8e9717be871206c674e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 34/70] fix: CDLCOUNTERATTACK: streaming body average dropped
 the wrong bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..aceca9c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -413,7 +413,7 @@ unsigned int i1;
         {
          STATE.EqualPeriodTotal -= TA_CANDLERANGE_STATE( Equal, -STATE.periodEqual-1 );
          STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From ed237cfd8cc0e93cd0ffcd5395303464d35de8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 35/70] fix: CDLLONGLINE, CDLRICKSHAWMAN, CDLSHORTLINE,
 CDLSPINNINGTOP: streaming wrote through a NULL history with zero-length
 averages

---
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c    | 11 +++++++----
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c | 11 +++++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c   | 11 +++++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c | 11 +++++++----
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 899df25..282e1ce 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -397,10 +397,13 @@
                  STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
                 }
 
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
+                if (MEM_SIZE > 0)
+                {
+                    PUSH_TO_MEM(inOpen,inOpen);
+                    PUSH_TO_MEM(inHigh,inHigh);
+                    PUSH_TO_MEM(inLow,inLow);
+                    PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index cc020fb..c73d70b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -439,10 +439,13 @@
                  STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear );
                 }
 
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
+                if (MEM_SIZE > 0)
+                {
+                    PUSH_TO_MEM(inOpen,inOpen);
+                    PUSH_TO_MEM(inHigh,inHigh);
+                    PUSH_TO_MEM(inLow,inLow);
+                    PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 54385c3..1c2d74d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -393,10 +393,13 @@
                  STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
                 }
 
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
+                if (MEM_SIZE > 0)
+                {
+                    PUSH_TO_MEM(inOpen,inOpen);
+                    PUSH_TO_MEM(inHigh,inHigh);
+                    PUSH_TO_MEM(inLow,inLow);
+                    PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 8829cac..7865023 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -374,10 +374,13 @@
                  STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
                 }
 
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
+                if (MEM_SIZE > 0)
+                {
+                    PUSH_TO_MEM(inOpen,inOpen);
+                    PUSH_TO_MEM(inHigh,inHigh);
+                    PUSH_TO_MEM(inLow,inLow);
+                    PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 9d65a1f1344dc6bfae2fa6b1ef45149c929c9f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 36/70] fix: GET_LOCAL_IDX: history index wrapped modulo 2^64
 before the history was full

---
 ta-lib-rt/c/include/ta_defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/include/ta_defs.h b/ta-lib-rt/c/include/ta_defs.h
index a02309c..6f0a15a 100644
--- a/ta-lib-rt/c/include/ta_defs.h
+++ b/ta-lib-rt/c/include/ta_defs.h
@@ -217,7 +217,7 @@
 #define NEED_MORE_DATA STATE.mem_size > STATE.mem_index - 1
 #define LAST_NEED_MORE_DATA STATE.mem_size == STATE.mem_index
 #define FIRST_LAUNCH (STATE.mem_index == 1)
-#define GET_LOCAL_IDX(i)  ((STATE.mem_index-1+i)%MEM_SIZE)
+#define GET_LOCAL_IDX(i)  ((STATE.mem_index-1+MEM_SIZE+(i))%MEM_SIZE)
 
 
 /* Abstraction of function calls within the library.
-- 
2.43.0


From 01d2b6c4f9f498ec77c5d0cb75a00448e5913812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 37/70] fix: CDLEVENINGSTAR, CDLMORNINGSTAR: streaming body
 average dropped the wrong bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..63fe981 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -458,7 +458,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..8e8b669 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -448,7 +448,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 924b86f3fca37e028458a732e07f7d4746cc532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 38/70] fix: CDLSTALLEDPATTERN: streaming shadow average
 dropped the wrong bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..deec975 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -486,7 +486,7 @@ int i1, i2, i3;
           STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
           STATE.BodyLongPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-2 );
           STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
+          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort-1 );
           STATE.NearPeriodTotal1 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-1 );
           STATE.NearPeriodTotal2 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
         }
-- 
2.43.0


From fb84d4d8575823285753a56f9d212e5f60de12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 39/70] fix: CDLHIKKAKEMOD: streaming Near average dropped the
 wrong bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..48bc4be 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -464,7 +464,7 @@ int i1,i2,i3;
                     STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
 
                 if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
-                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
+                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear+1 );
 
 
                 PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From f95fedac5cabe08223a59f04b71a611d28ee3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 40/70] fix: CDLHIGHWAVE: streaming averages included bars
 older than their period

---
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..5785860 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -371,8 +371,10 @@
                 }
 
 
-                STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
+                    STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
+                    STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
 
 
 
-- 
2.43.0


From 8646499d83a69641f9285f99e750d6c71277aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 41/70] fix: StateFree of composite indicators dereferenced a
 NULL handle

TA_X_StateFree(&handle) with handle==NULL (never initialized, already freed,
or restored from a null record) must be a no-op, and TA_X_StateFree(NULL)
must return TA_BAD_PARAM. Functions that free nested states, circular buffers
or Hilbert buffers touched them before the generated NULL checks.
---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ADXR.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_APO.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ATR.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_CCI.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_DEMA.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c  | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c    | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MA.c           | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MACD.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c      | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MAMA.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MFI.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_SAR.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_TEMA.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_TRIX.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c       | 5 +++++
 29 files changed, 145 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..08defc4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -602,6 +602,11 @@ double tempReal,tempReal1,tempReal2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..42ad6f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -508,6 +508,11 @@ double tempReal;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 946cd5d..5dfc8f5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -704,6 +704,11 @@ int res1, res2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 700fb2c..9c86d4f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -568,6 +568,11 @@ double tempReal, tempATR;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 
         TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index d801845..39ad6de 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -743,6 +743,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..02d5bba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -553,6 +553,11 @@ double lastValue, sum, theAverage;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
   FREE_CIRCBUF_STRUCT(CCI, circBuf);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..e070a9e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -557,6 +557,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..98c1e4d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -694,6 +694,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 
         FREE_HILBERT_VARIABLES_STRUCT(detrender);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..ade7df3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -834,6 +834,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..9af3db4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -735,6 +735,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..18efb0b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -861,6 +861,11 @@ else {
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..a1aaf98 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -795,6 +795,11 @@ else {
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..7db9771 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -964,6 +964,11 @@ double sine, leadSine;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..894bfa2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -659,6 +659,11 @@ return retValue;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 ENUM_DECLARATION(RetCode) retValue;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..84c7f97 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -942,6 +942,11 @@ k2 = (double)0.15; /* Fix 12 */
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 08177c2..2283c6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -822,6 +822,11 @@ int tempInteger, tempInteger2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..7551ae5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -885,6 +885,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 92433c8..288e721 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -576,6 +576,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..4660c99 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -657,6 +657,11 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
    FREE_CIRCBUF_STRUCT(MFI, mflow);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 2b55594..74f443d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -593,6 +593,11 @@ double tempReal, tempATR;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         TA_RetCode retCode;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..1ea91a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -889,6 +889,11 @@ double ep_temp;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 933df34..713fc06 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1180,6 +1180,11 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
  if (STATE_P.optInStartValue == 0)
   {
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..929c8b1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -582,6 +582,11 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2f91e49..718a880 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -902,6 +902,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 4255aa0..4d94324 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -842,6 +842,11 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..0d5a6a6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -614,6 +614,11 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..79a2ea0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -567,6 +567,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..31427ef 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -527,6 +527,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 27a580a..8f54500 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -722,6 +722,11 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    /* insert local variable here */
    FREE_CIRCBUF_STRUCT(ULTOSC, periodA);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodB);
-- 
2.43.0


From bbcce02312ba02993a7246b84b42afb62843885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 42/70] fix: MACDFIX StateSave/StateLoad lost the MACD state

A MACDFIX streaming object is a MACD state, but it was saved and loaded as the
smaller generated MACDFIX record: a reloaded object rejected its first bar and
could crash. Delegate to MACD as StateInit, State and StateFree do.
---
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..21ee1f0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -496,7 +496,9 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
 
 {
-   /* insert local variable here */
+   /* The state of MACDFIX is a MACD state. */
+   return FUNCTION_CALL_STATE_SAVE(MACD)( (struct TA_MACD_State*) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
 
 /**** START GENCODE SECTION 12 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -525,6 +527,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state save code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
@@ -544,7 +547,9 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */ #endif
 /**** END GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
 {
-   /* insert local variable here */
+   /* The state of MACDFIX is a MACD state. */
+   return FUNCTION_CALL_STATE_LOAD(MACD)( (struct TA_MACD_State**) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
 
 /**** START GENCODE SECTION 14 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -575,6 +580,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state load code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 15 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From 05e6305d8660bf867c066e2eb36f0594c84e338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 43/70] fix: CIRCBUF save/load ignored failed writes and reads
 of the index and size

fwrite/fread return the number of items, never a negative value: a failed write
of the circular buffer header was reported as success, and a failed read left the
buffer size uninitialized.
---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..160bdf4 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From 15d2a18256f8319a19dd570711db796eac75bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 44/70] fix: StateInit and StateLoad did not check their
 allocations

A failed allocation of the state object or of its history buffer was
dereferenced. Return TA_ALLOC_ERR (the generator emits the same code).
---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ACOS.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AD.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADD.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADOSC.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADX.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADXR.c                | 11 ++++++++---
 ta-lib-rt/c/src/ta_func/ta_APO.c                 |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_AROON.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ASIN.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ATAN.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ATR.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_BETA.c                | 11 ++++++++---
 ta-lib-rt/c/src/ta_func/ta_BOP.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CCI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c         | 11 ++++++++---
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c       |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c       |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CEIL.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CMO.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CORREL.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_COS.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_COSH.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_DEMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_DIV.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_DX.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_EMA.c                 |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_EXP.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_FLOOR.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_IMI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_KAMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LN.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LOG10.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MA.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MACD.c                |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAVP.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAX.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MFI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MIN.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MOM.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MULT.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_NATR.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_NVI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_OBV.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PPO.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PVI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PVT.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROC.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROCP.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROCR.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROCR100.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_RSI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SAR.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SIN.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SINH.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SMA.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SQRT.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCH.c               | 11 ++++++++---
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c              | 11 ++++++++---
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SUB.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SUM.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_T3.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TAN.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TANH.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TEMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TRANGE.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TRIX.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_VAR.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_WILLR.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_WLMA.c                |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 |  8 ++++++--
 ta-lib-rt/c/src/tools/gen_code/gen_code.c        | 12 ++++++++++--
 166 files changed, 1014 insertions(+), 337 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 08defc4..7655ddb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -369,13 +369,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ACCBANDS_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ACCBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -719,6 +721,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -727,6 +730,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACCBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACOS.c b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
index c2529f9..2227307 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACOS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
@@ -205,12 +205,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ACOS_Lookback();
 /* Generated */    #ifndef TA_ACOS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACOS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AD.c b/ta-lib-rt/c/src/ta_func/ta_AD.c
index 262d2ae..981fdbb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AD.c
@@ -252,12 +252,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AD_Lookback();
 /* Generated */    #ifndef TA_AD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ad,sizeof(STATE_P.ad),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADD.c b/ta-lib-rt/c/src/ta_func/ta_ADD.c
index 620e17c..25acd6e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADD.c
@@ -217,12 +217,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ADD_Lookback();
 /* Generated */    #ifndef TA_ADD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -485,6 +487,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -493,6 +496,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
index a8c2fe4..ed29d26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
@@ -390,14 +390,16 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    MEM_SIZE_P = TA_ADOSC_Lookback(optInFastPeriod, optInSlowPeriod );
 /* Generated */    #ifndef TA_ADOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -725,6 +727,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -733,6 +736,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 34efe34..48dd083 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -585,13 +585,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -967,6 +969,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -975,6 +978,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index 42ad6f7..0f5d7ba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -302,13 +302,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADXR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADXR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -322,7 +324,8 @@
       MEM_SIZE_P = 3;
 
    // TODO only one double is needed for memory
-   MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+   { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+     if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); } }
 
    return FUNCTION_CALL_STATE_INIT(ADX)((struct TA_ADX_State**)&STATE_P.ADXState, STATE_P.optInTimePeriod);
 }
@@ -617,6 +620,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -625,6 +629,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADXR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 5dfc8f5..07ab9f0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -445,15 +445,17 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_APO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_APO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -524,6 +526,7 @@ if( optInSlowPeriod < optInFastPeriod )
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -824,6 +827,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -832,6 +836,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_APO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 5023801..7775097 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -341,13 +341,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROON_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -703,6 +705,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -711,6 +714,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index da47e01..840c77b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -352,13 +352,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROONOSC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROONOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -698,6 +700,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -706,6 +709,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROONOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ASIN.c b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
index 8ff0efe..7c7abdd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ASIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
@@ -205,12 +205,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ASIN_Lookback();
 /* Generated */    #ifndef TA_ASIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ASIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATAN.c b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
index 5c866c4..9c5a180 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
@@ -202,12 +202,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ATAN_Lookback();
 /* Generated */    #ifndef TA_ATAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -460,6 +462,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -468,6 +471,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 9c86d4f..f8ef12b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -355,13 +355,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index c020385..622f437 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -262,13 +262,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AVGDEV_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AVGDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -554,6 +556,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -562,6 +565,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
index 6400773..e0cbf67 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
@@ -226,12 +226,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AVGPRICE_Lookback();
 /* Generated */    #ifndef TA_AVGPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -508,6 +510,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -516,6 +519,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 39ad6de..f9113f3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -499,6 +499,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDevUp = optInNbDevUp;
@@ -506,9 +507,10 @@
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_BBANDS_Lookback(optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
 /* Generated */    #ifndef TA_BBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -863,6 +865,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -871,6 +874,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 9467e93..0c57041 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -361,13 +361,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_BETA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_BETA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -378,7 +380,8 @@
    STATE_P.initialized = 0;
    MEM_SIZE_P--;
    if (MEM_SIZE_P > 0)
-     MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+     { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+       if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); } }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
@@ -726,6 +729,7 @@ double x,y,temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -734,6 +738,7 @@ double x,y,temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BETA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BOP.c b/ta-lib-rt/c/src/ta_func/ta_BOP.c
index ea3d263..ed7754d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BOP.c
@@ -225,12 +225,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_BOP_Lookback();
 /* Generated */    #ifndef TA_BOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -513,6 +515,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -521,6 +524,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index 02d5bba..0348d6a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -337,13 +337,15 @@ DEFINE_CIRCBUF_STRUCT(CCI, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CCI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CCI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -661,6 +663,7 @@ double lastValue, sum, theAverage;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -669,6 +672,7 @@ double lastValue, sum, theAverage;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CCI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..2cdd5a4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDL2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..a34e189 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3BLACKCROWS_Lookback();
 /* Generated */    #ifndef TA_CDL3BLACKCROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -641,6 +643,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3BLACKCROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..1a77129 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -289,12 +289,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3INSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3INSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -632,6 +634,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3INSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
index 2901e2d..c340d70 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
@@ -300,12 +300,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3LINESTRIKE_Lookback();
 /* Generated */    #ifndef TA_CDL3LINESTRIKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3LINESTRIKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal3,sizeof(STATE_P.NearPeriodTotal3),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
index f8cebb6..29ab6dc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
@@ -268,12 +268,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3OUTSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3OUTSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -283,7 +285,8 @@
    /* insert state init code here. */
 
 //   MEM_SIZE_P--;
-   MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+   { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+     if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); } }
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
@@ -574,6 +577,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -582,6 +586,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3OUTSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index 0336b61..ae02e89 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -329,12 +329,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3STARSINSOUTH_Lookback();
 /* Generated */    #ifndef TA_CDL3STARSINSOUTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -722,6 +724,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3STARSINSOUTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index c59ba43..1cf273a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -342,12 +342,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3WHITESOLDIERS_Lookback();
 /* Generated */    #ifndef TA_CDL3WHITESOLDIERS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -755,6 +757,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -763,6 +766,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3WHITESOLDIERS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..154ae6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -350,13 +350,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLABANDONEDBABY_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLABANDONEDBABY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -732,6 +734,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -740,6 +743,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLABANDONEDBABY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index e6a2857..4a1b42a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -378,12 +378,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLADVANCEBLOCK_Lookback();
 /* Generated */    #ifndef TA_CDLADVANCEBLOCK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -830,6 +832,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -838,6 +841,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLADVANCEBLOCK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowShortPeriodTotal0,sizeof(STATE_P.ShadowShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index c380a8e..81a1ee0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBELTHOLD_Lookback();
 /* Generated */    #ifndef TA_CDLBELTHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBELTHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..4b5847a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBREAKAWAY_Lookback();
 /* Generated */    #ifndef TA_CDLBREAKAWAY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBREAKAWAY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index b458467..513376a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -298,12 +298,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCLOSINGMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLCLOSINGMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -651,6 +653,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,6 +662,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCLOSINGMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 25f7f7f..80b71dc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -303,12 +303,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCONCEALBABYSWALL_Lookback();
 /* Generated */    #ifndef TA_CDLCONCEALBABYSWALL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCONCEALBABYSWALL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal1,sizeof(STATE_P.ShadowVeryShortPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index aceca9c..89e9aba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCOUNTERATTACK_Lookback();
 /* Generated */    #ifndef TA_CDLCOUNTERATTACK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -642,6 +644,7 @@ unsigned int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -650,6 +653,7 @@ unsigned int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCOUNTERATTACK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index 53f8275..8fe24fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -310,13 +310,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLDARKCLOUDCOVER_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLDARKCLOUDCOVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDARKCLOUDCOVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
index 3523601..460c347 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -593,6 +595,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -601,6 +604,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 3eb838b..f95aaf8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -632,6 +634,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.DojiPeriodTotal,sizeof(STATE_P.DojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index f362ba7..04efb76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -293,12 +293,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDRAGONFLYDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDRAGONFLYDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -635,6 +637,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -643,6 +646,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDRAGONFLYDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
index 3a07d6a..be9d0a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
@@ -274,12 +274,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLENGULFING_Lookback();
 /* Generated */    #ifndef TA_CDLENGULFING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -579,6 +581,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -587,6 +590,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLENGULFING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index ecd51e1..7b8fb9d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -338,13 +338,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -707,6 +709,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -715,6 +718,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 63fe981..00c5eef 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -330,13 +330,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 6377984..dfe9757 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGAPSIDESIDEWHITE_Lookback();
 /* Generated */    #ifndef TA_CDLGAPSIDESIDEWHITE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index 5918d5f..0145445 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGRAVESTONEDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLGRAVESTONEDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -623,6 +625,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -631,6 +634,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGRAVESTONEDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index 937e225..83b36c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 085136f..7ff3ddd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHANGINGMAN_Lookback();
 /* Generated */    #ifndef TA_CDLHANGINGMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHANGINGMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 17adadf..28e117f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMI_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -656,6 +658,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,6 +667,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyShortPeriodTotal,sizeof(STATE_P.BodyShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 4a091e9..defffcf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMICROSS_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMICROSS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -653,6 +655,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,6 +664,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMICROSS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 5785860..abd9bb5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIGHWAVE_Lookback();
 /* Generated */    #ifndef TA_CDLHIGHWAVE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -607,6 +609,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -615,6 +618,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIGHWAVE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 3198dcb..98bca9e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -298,12 +298,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKE_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 48bc4be..9f3d546 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -330,12 +330,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKEMOD_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKEMOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -693,6 +695,7 @@ int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -701,6 +704,7 @@ int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKEMOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 199497d..b77624c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHOMINGPIGEON_Lookback();
 /* Generated */    #ifndef TA_CDLHOMINGPIGEON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHOMINGPIGEON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 37166c6..48f295a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -316,12 +316,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLIDENTICAL3CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLIDENTICAL3CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -695,6 +697,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,6 +706,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLIDENTICAL3CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 9d0b5ff..5360588 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -292,12 +292,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINNECK_Lookback();
 /* Generated */    #ifndef TA_CDLINNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -636,6 +638,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,6 +647,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 5101675..0d8becf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINVERTEDHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLINVERTEDHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -663,6 +665,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINVERTEDHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..c63fc3a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -304,12 +304,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKING_Lookback();
 /* Generated */    #ifndef TA_CDLKICKING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..3939352 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKINGBYLENGTH_Lookback();
 /* Generated */    #ifndef TA_CDLKICKINGBYLENGTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -679,6 +681,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKINGBYLENGTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index ac07488..3aa810e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -282,12 +282,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLADDERBOTTOM_Lookback();
 /* Generated */    #ifndef TA_CDLLADDERBOTTOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -618,6 +620,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -626,6 +629,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLADDERBOTTOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index 0efb80e..364aa9a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -279,12 +279,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLEGGEDDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLEGGEDDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLEGGEDDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 282e1ce..c3f9f7c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLINE_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -624,6 +626,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -632,6 +635,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index b6307bd..d49f6c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 81708ca..ce7b279 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -273,12 +273,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMATCHINGLOW_Lookback();
 /* Generated */    #ifndef TA_CDLMATCHINGLOW_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -602,6 +604,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -610,6 +613,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATCHINGLOW_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..5b88db8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -347,13 +347,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMATHOLD_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMATHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -729,6 +731,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -737,6 +740,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index 1e542fd..808f0bc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -332,13 +332,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -701,6 +703,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -709,6 +712,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 8e8b669..4b9bcc0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -320,13 +320,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -679,6 +681,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index ccab91e..1d7b1c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLONNECK_Lookback();
 /* Generated */    #ifndef TA_CDLONNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -631,6 +633,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,6 +642,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLONNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index 1d898ca..40d219d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLPIERCING_Lookback();
 /* Generated */    #ifndef TA_CDLPIERCING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -622,6 +624,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -630,6 +633,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLPIERCING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index c73d70b..66d8e48 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRICKSHAWMAN_Lookback();
 /* Generated */    #ifndef TA_CDLRICKSHAWMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRICKSHAWMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..2eb6062 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -314,12 +314,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRISEFALL3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLRISEFALL3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -696,6 +698,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRISEFALL3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index 91600a0..2360d86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSEPARATINGLINES_Lookback();
 /* Generated */    #ifndef TA_CDLSEPARATINGLINES_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -673,6 +675,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSEPARATINGLINES_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..ee84314 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHOOTINGSTAR_Lookback();
 /* Generated */    #ifndef TA_CDLSHOOTINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -657,6 +659,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -665,6 +668,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHOOTINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 1c2d74d..b3c0c86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHORTLINE_Lookback();
 /* Generated */    #ifndef TA_CDLSHORTLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHORTLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 7865023..8c89e17 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -268,12 +268,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSPINNINGTOP_Lookback();
 /* Generated */    #ifndef TA_CDLSPINNINGTOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -595,6 +597,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -603,6 +606,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSPINNINGTOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index deec975..e9b471f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -332,12 +332,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTALLEDPATTERN_Lookback();
 /* Generated */    #ifndef TA_CDLSTALLEDPATTERN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -731,6 +733,7 @@ int i1, i2, i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -739,6 +742,7 @@ int i1, i2, i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTALLEDPATTERN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal1,sizeof(STATE_P.BodyLongPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index c6b80bf..a360e2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -274,12 +274,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTICKSANDWICH_Lookback();
 /* Generated */    #ifndef TA_CDLSTICKSANDWICH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTICKSANDWICH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index 34f5410..b607627 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTAKURI_Lookback();
 /* Generated */    #ifndef TA_CDLTAKURI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -654,6 +656,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -662,6 +665,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTAKURI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 3253df0..082e10b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTASUKIGAP_Lookback();
 /* Generated */    #ifndef TA_CDLTASUKIGAP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTASUKIGAP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index c545320..08b524c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTHRUSTING_Lookback();
 /* Generated */    #ifndef TA_CDLTHRUSTING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTHRUSTING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..5930fa1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -288,12 +288,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTRISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLTRISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -628,6 +630,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -636,6 +639,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTRISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..8997cf7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -288,12 +288,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUNIQUE3RIVER_Lookback();
 /* Generated */    #ifndef TA_CDLUNIQUE3RIVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -638,6 +640,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,6 +649,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUNIQUE3RIVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..46d529a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUPSIDEGAP2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLUPSIDEGAP2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -641,6 +643,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
index 4ef4bf8..b2527b1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
@@ -272,12 +272,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLXSIDEGAP3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLXSIDEGAP3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -581,6 +583,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -589,6 +592,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLXSIDEGAP3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CEIL.c b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
index 26b69a8..ef8e612 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CEIL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CEIL_Lookback();
 /* Generated */    #ifndef TA_CEIL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CEIL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 426b769..b9b90a2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -448,13 +448,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CMO_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CMO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -769,6 +771,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -777,6 +780,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CMO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index 0d24c78..823daf9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -315,13 +315,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CORREL_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CORREL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CORREL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_COS.c b/ta-lib-rt/c/src/ta_func/ta_COS.c
index 0449fc0..d68b114 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COS.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COS_Lookback();
 /* Generated */    #ifndef TA_COS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_COSH.c b/ta-lib-rt/c/src/ta_func/ta_COSH.c
index a55af67..aaf0bf6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COSH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COSH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COSH_Lookback();
 /* Generated */    #ifndef TA_COSH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COSH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index e070a9e..7db5842 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -375,13 +375,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -673,6 +675,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DIV.c b/ta-lib-rt/c/src/ta_func/ta_DIV.c
index cc3a702..815d0f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DIV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DIV.c
@@ -213,12 +213,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_DIV_Lookback();
 /* Generated */    #ifndef TA_DIV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DIV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index f63be0a..5624294 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -522,13 +522,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -885,6 +887,7 @@ double minusDI, plusDI;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -893,6 +896,7 @@ double minusDI, plusDI;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1f2c8d1..6f0f432 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -391,13 +391,15 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_EMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_EMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -437,6 +439,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -746,6 +749,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -754,6 +758,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EXP.c b/ta-lib-rt/c/src/ta_func/ta_EXP.c
index bf74448..f375e23 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EXP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EXP.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_EXP_Lookback();
 /* Generated */    #ifndef TA_EXP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EXP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
index 8c2137f..186a505 100644
--- a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_FLOOR_Lookback();
 /* Generated */    #ifndef TA_FLOOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_FLOOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index 98c1e4d..e8c56ee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -406,12 +406,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPERIOD_Lookback();
 /* Generated */    #ifndef TA_HT_DCPERIOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -842,6 +844,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -850,6 +853,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPERIOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index ade7df3..ff9ba3b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -490,12 +490,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPHASE_Lookback();
 /* Generated */    #ifndef TA_HT_DCPHASE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -989,6 +991,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -997,6 +1000,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPHASE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index 9af3db4..135fed8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -423,12 +423,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_PHASOR_Lookback();
 /* Generated */    #ifndef TA_HT_PHASOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -881,6 +883,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -889,6 +892,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_PHASOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index 18efb0b..8be33cf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -498,12 +498,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_SINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_SINE_Lookback();
 /* Generated */    #ifndef TA_HT_SINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1018,6 +1020,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1026,6 +1029,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_SINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index a1aaf98..7a21d3f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -471,12 +471,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDLINE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -951,6 +953,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -959,6 +962,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 7db9771..5aae77e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -559,12 +559,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDMODE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDMODE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDMODE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1134,6 +1136,7 @@ double sine, leadSine;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1142,6 +1145,7 @@ double sine, leadSine;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDMODE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 469d2a2..43c9c58 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -268,13 +268,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_IMI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_IMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -580,6 +582,7 @@ double tempClose, tempOpen;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -588,6 +591,7 @@ double tempClose, tempOpen;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_IMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index ebab907..1262af1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -391,13 +391,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_KAMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_KAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -721,6 +723,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -729,6 +732,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_KAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index be129ad..6299860 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -289,13 +289,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index 4d323a5..eaeab96 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -290,13 +290,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_ANGLE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_ANGLE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_ANGLE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index a57678b..60f6092 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -288,13 +288,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_INTERCEPT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_INTERCEPT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -591,6 +593,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,6 +602,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_INTERCEPT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 22f5f29..8d13c3c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -286,13 +286,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_SLOPE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SLOPE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -587,6 +589,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -595,6 +598,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_SLOPE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LN.c b/ta-lib-rt/c/src/ta_func/ta_LN.c
index c21090f..9617afe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LN.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LN_Lookback();
 /* Generated */    #ifndef TA_LN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_LOG10.c b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
index 1ce5358..3c1e35b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LOG10.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LOG10_Lookback();
 /* Generated */    #ifndef TA_LOG10_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LOG10_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 894bfa2..cab4a84 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -388,14 +388,16 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MA_Lookback(optInTimePeriod, optInMAType );
 /* Generated */    #ifndef TA_MA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -872,6 +874,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -880,6 +883,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index 84c7f97..df4d025 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -586,15 +586,17 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACD_Lookback(optInFastPeriod, optInSlowPeriod, optInSignalPeriod );
 /* Generated */    #ifndef TA_MACD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -695,6 +697,7 @@ k2 = (double)0.15; /* Fix 12 */
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -1067,6 +1070,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1075,6 +1079,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 2283c6d..b9af2fc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -545,6 +545,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInFastMAType = optInFastMAType;
@@ -554,9 +555,10 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    STATE_P.optInSignalMAType = optInSignalMAType;
 /* Generated */    MEM_SIZE_P = TA_MACDEXT_Lookback(optInFastPeriod, optInFastMAType, optInSlowPeriod, optInSlowMAType, optInSignalPeriod, optInSignalMAType );
 /* Generated */    #ifndef TA_MACDEXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -953,6 +955,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -961,6 +964,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDEXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 21ee1f0..2ea170f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -260,13 +260,15 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACDFIX_Lookback(optInSignalPeriod );
 /* Generated */    #ifndef TA_MACDFIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -561,6 +563,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDFIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInSignalPeriod,sizeof(STATE_P.optInSignalPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 7551ae5..4a66e97 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -535,14 +535,16 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastLimit = optInFastLimit;
 /* Generated */    STATE_P.optInSlowLimit = optInSlowLimit;
 /* Generated */    MEM_SIZE_P = TA_MAMA_Lookback(optInFastLimit, optInSlowLimit );
 /* Generated */    #ifndef TA_MAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1039,6 +1041,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1047,6 +1050,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastLimit,sizeof(STATE_P.optInFastLimit),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 288e721..49103a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -395,15 +395,17 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInMinPeriod = optInMinPeriod;
 /* Generated */    STATE_P.optInMaxPeriod = optInMaxPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MAVP_Lookback(optInMinPeriod, optInMaxPeriod, optInMAType );
 /* Generated */    #ifndef TA_MAVP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -686,6 +688,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -694,6 +697,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAVP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInMinPeriod,sizeof(STATE_P.optInMinPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index dfab3ff..6aa9742 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -298,13 +298,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index a26df1b..edb0f6f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -603,6 +605,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -611,6 +614,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
index bdd4ed2..83317d9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
@@ -221,12 +221,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MEDPRICE_Lookback();
 /* Generated */    #ifndef TA_MEDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -488,6 +490,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -496,6 +499,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MEDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index 4660c99..c680774 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -419,13 +419,15 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MFI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MFI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -768,6 +770,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -776,6 +779,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MFI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
index 7d548f1..b9cdf4d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
@@ -286,13 +286,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPOINT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPOINT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -560,6 +562,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -568,6 +571,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPOINT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
index 37855d4..bef81b2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPRICE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -578,6 +580,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -586,6 +589,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index 98df43f..105c4fa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -299,13 +299,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIN_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -599,6 +601,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -607,6 +610,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 48a8783..f369a2a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MININDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MININDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MININDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 8c9e157..6940b03 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -324,13 +324,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -663,6 +665,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 2be8afb..e44524f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -324,13 +324,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 38a5da0..1d45c45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -529,13 +529,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -893,6 +895,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -901,6 +904,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index de16fc5..612e32e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -442,13 +442,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MOM.c b/ta-lib-rt/c/src/ta_func/ta_MOM.c
index 98e47f1..857b727 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MOM.c
@@ -290,13 +290,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MOM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -553,6 +555,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -561,6 +564,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MULT.c b/ta-lib-rt/c/src/ta_func/ta_MULT.c
index 03f7be4..0c9af18 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MULT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MULT.c
@@ -213,12 +213,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MULT_Lookback();
 /* Generated */    #ifndef TA_MULT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MULT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 74f443d..2c3b9bc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -377,13 +377,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_NATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_NATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -712,6 +714,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -720,6 +723,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NVI.c b/ta-lib-rt/c/src/ta_func/ta_NVI.c
index d38e01b..06ea0e3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NVI.c
@@ -227,12 +227,14 @@ int outIdx;
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_NVI_Lookback();
 /* Generated */    #ifndef TA_NVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -505,6 +507,7 @@ int outIdx;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -513,6 +516,7 @@ int outIdx;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevNVI,sizeof(STATE_P.prevNVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_OBV.c b/ta-lib-rt/c/src/ta_func/ta_OBV.c
index 8ee6a25..552af9f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_OBV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_OBV.c
@@ -225,12 +225,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_OBV_Lookback();
 /* Generated */    #ifndef TA_OBV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -511,6 +513,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -519,6 +522,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_OBV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevOBV,sizeof(STATE_P.prevOBV),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 5323dca..4146511 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -529,13 +529,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -894,6 +896,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -902,6 +905,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 44c5747..46aa4df 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -443,13 +443,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PPO.c b/ta-lib-rt/c/src/ta_func/ta_PPO.c
index d335e08..4aea969 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PPO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PPO.c
@@ -306,15 +306,17 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_PPO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_PPO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -577,6 +579,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -585,6 +588,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PPO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVI.c b/ta-lib-rt/c/src/ta_func/ta_PVI.c
index d16edb7..69956cc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVI.c
@@ -229,12 +229,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVI_Lookback();
 /* Generated */    #ifndef TA_PVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -506,6 +508,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -514,6 +517,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVI,sizeof(STATE_P.prevPVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVT.c b/ta-lib-rt/c/src/ta_func/ta_PVT.c
index c727701..95a9230 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVT.c
@@ -224,12 +224,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVT_Lookback();
 /* Generated */    #ifndef TA_PVT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVT,sizeof(STATE_P.prevPVT),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROC.c b/ta-lib-rt/c/src/ta_func/ta_ROC.c
index 20177b1..880a734 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROC.c
@@ -293,13 +293,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCP.c b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
index 2b0600a..0e14d79 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
@@ -294,13 +294,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCP_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR.c b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
index a409468..659dc62 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
@@ -295,13 +295,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -558,6 +560,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -566,6 +569,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
index f82d58c..e5be198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
@@ -294,13 +294,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR100_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR100_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR100_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 09fcaf5..e3dc69d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -453,13 +453,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_RSI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_RSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -772,6 +774,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -780,6 +783,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_RSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 1ea91a7..c389169 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -541,14 +541,16 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInAcceleration = optInAcceleration;
 /* Generated */    STATE_P.optInMaximum = optInMaximum;
 /* Generated */    MEM_SIZE_P = TA_SAR_Lookback(optInAcceleration, optInMaximum );
 /* Generated */    #ifndef TA_SAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1016,6 +1018,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1024,6 +1027,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInAcceleration,sizeof(STATE_P.optInAcceleration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 713fc06..d265816 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -786,6 +786,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInStartValue = optInStartValue;
 /* Generated */    STATE_P.optInOffsetOnReverse = optInOffsetOnReverse;
@@ -797,9 +798,10 @@
 /* Generated */    STATE_P.optInAccelerationMaxShort = optInAccelerationMaxShort;
 /* Generated */    MEM_SIZE_P = TA_SAREXT_Lookback(optInStartValue, optInOffsetOnReverse, optInAccelerationInitLong, optInAccelerationLong, optInAccelerationMaxLong, optInAccelerationInitShort, optInAccelerationShort, optInAccelerationMaxShort );
 /* Generated */    #ifndef TA_SAREXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1324,6 +1326,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1332,6 +1335,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAREXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInStartValue,sizeof(STATE_P.optInStartValue),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SIN.c b/ta-lib-rt/c/src/ta_func/ta_SIN.c
index f58ef85..18a66af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SIN.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SIN_Lookback();
 /* Generated */    #ifndef TA_SIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SINH.c b/ta-lib-rt/c/src/ta_func/ta_SINH.c
index eb1dafb..9128620 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SINH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SINH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SINH_Lookback();
 /* Generated */    #ifndef TA_SINH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SINH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index e4c400a..66cda66 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -320,13 +320,15 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -604,6 +606,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -612,6 +615,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SQRT.c b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
index 7059f9d..b38455c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SQRT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SQRT_Lookback();
 /* Generated */    #ifndef TA_SQRT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SQRT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 929c8b1..6651b8d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -387,14 +387,16 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_STDDEV_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_STDDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -690,6 +692,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -698,6 +701,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STDDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 718a880..e4d81f2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -618,6 +618,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInSlowK_Period = optInSlowK_Period;
@@ -626,9 +627,10 @@
 /* Generated */    STATE_P.optInSlowD_MAType = optInSlowD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCH_Lookback(optInFastK_Period, optInSlowK_Period, optInSlowK_MAType, optInSlowD_Period, optInSlowD_MAType );
 /* Generated */    #ifndef TA_STOCH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -638,7 +640,8 @@
    /* insert state init code here. */
    MEM_SIZE_P = (optInFastK_Period - 1);
  if (MEM_SIZE_P > 0)
-     MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+     { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+       if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); } }
  else MEM_P = NULL;
 
    retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInSlowK_Period, optInSlowK_MAType );
@@ -1031,6 +1034,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1039,6 +1043,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 4d94324..d2001c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -547,15 +547,17 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInFastD_Period = optInFastD_Period;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHF_Lookback(optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -565,7 +567,8 @@ TA_RetCode retCode;
    /* insert state init code here. */
         MEM_SIZE_P = (optInFastK_Period - 1);
       if (MEM_SIZE_P > 0)
-          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+            if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); } }
       else MEM_P = NULL;
 
         retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInFastD_Period, optInFastD_MAType );
@@ -963,6 +966,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -971,6 +975,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 0d5a6a6..4091f44 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -423,6 +423,7 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
@@ -430,9 +431,10 @@ TA_RetCode retCode;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHRSI_Lookback(optInTimePeriod, optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHRSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -734,6 +736,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -742,6 +745,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHRSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUB.c b/ta-lib-rt/c/src/ta_func/ta_SUB.c
index c2a437b..4b90198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUB.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUB.c
@@ -214,12 +214,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SUB_Lookback();
 /* Generated */    #ifndef TA_SUB_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -480,6 +482,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -488,6 +491,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUB_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index d31b31e..8007087 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -278,13 +278,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SUM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SUM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -561,6 +563,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index c055db5..0b10818 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -401,14 +401,16 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInVFactor = optInVFactor;
 /* Generated */    MEM_SIZE_P = TA_T3_Lookback(optInTimePeriod, optInVFactor );
 /* Generated */    #ifndef TA_T3_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -813,6 +815,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -821,6 +824,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_T3_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TAN.c b/ta-lib-rt/c/src/ta_func/ta_TAN.c
index e00631f..71acbd2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TAN.c
@@ -207,12 +207,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TAN_Lookback();
 /* Generated */    #ifndef TA_TAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TANH.c b/ta-lib-rt/c/src/ta_func/ta_TANH.c
index a79a452..69a536d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TANH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TANH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TANH_Lookback();
 /* Generated */    #ifndef TA_TANH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TANH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 79a2ea0..7a33133 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -377,13 +377,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
index 4f54221..51c6be1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
@@ -260,12 +260,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TRANGE_Lookback();
 /* Generated */    #ifndef TA_TRANGE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRANGE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 8b86f45..43e6f91 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -516,13 +516,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -870,6 +872,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -878,6 +881,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 31427ef..9590570 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -344,13 +344,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -650,6 +652,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -658,6 +661,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f71b902..3666eeb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -289,13 +289,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TSF_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TSF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@ double m, b, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, b, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TSF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
index 9f89a75..e097b26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
@@ -223,12 +223,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TYPPRICE_Lookback();
 /* Generated */    #ifndef TA_TYPPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TYPPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 8f54500..98bf324 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -463,15 +463,17 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod1 = optInTimePeriod1;
 /* Generated */    STATE_P.optInTimePeriod2 = optInTimePeriod2;
 /* Generated */    STATE_P.optInTimePeriod3 = optInTimePeriod3;
 /* Generated */    MEM_SIZE_P = TA_ULTOSC_Lookback(optInTimePeriod1, optInTimePeriod2, optInTimePeriod3 );
 /* Generated */    #ifndef TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -852,6 +854,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -860,6 +863,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ULTOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod1,sizeof(STATE_P.optInTimePeriod1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index a62e593..82c65a2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -375,14 +375,16 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_VAR_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_VAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -674,6 +676,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -682,6 +685,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_VAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
index 49726a7..482a497 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
@@ -222,12 +222,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_WCLPRICE_Lookback();
 /* Generated */    #ifndef TA_WCLPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -497,6 +499,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,6 +508,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WCLPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 1f9d893..91b7c28 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -341,13 +341,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WILLR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WILLR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -696,6 +698,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WILLR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index d951e5a..7949e1c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -388,13 +388,15 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WLMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WLMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -434,6 +436,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -743,6 +746,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -751,6 +755,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WLMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 0e9d3a0..6972c50 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -344,13 +344,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -642,6 +644,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -650,6 +653,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..af8146c 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1839,6 +1839,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);\n");
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);\n");
@@ -1855,6 +1857,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(STATE_P.memory,sizeof(struct TA_%s_Data),STATE_P.mem_size,_file);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } \n");
@@ -2543,6 +2547,8 @@ void printFunc( FILE *out,
        printIndent( out, indent);
        fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
        printIndent( out, indent);
+       fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+       printIndent( out, indent);
        fprintf( out, "STATE_P.mem_index = 0;\n");
 
        int word_idx = 0;
@@ -2572,11 +2578,13 @@ void printFunc( FILE *out,
        printIndent( out, indent );
        fprintf( out, "#ifndef TA_%s_SUPPRESS_MEMORY_ALLOCATION\n", funcName);
        printIndent( out, indent);
-       fprintf( out, "if (MEM_SIZE_P > 0)\n");
+       fprintf( out, "if (MEM_SIZE_P > 0) {\n");
        printIndent( out, indent+6 );
        fprintf( out, "MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data));\n", funcName);
+       printIndent( out, indent+6 );
+       fprintf( out, "if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }\n");
        printIndent( out, indent );
-       fprintf( out, "else\n");
+       fprintf( out, "} else\n");
        printIndent( out, indent );
        fprintf( out, "#endif\n");
        printIndent( out, indent+6 );
-- 
2.43.0


From d6144facb93451a490aefcefc306918266bbeba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 45/70] fix: batch ATR, NATR, STOCHRSI, MAVP, STOCH, STOCHF did
 not check their work buffers

A failed allocation was reported as TA_BAD_PARAM or dereferenced; it is now
TA_ALLOC_ERR with 0 outputs like in the other functions.
---
 ta-lib-rt/c/src/ta_func/ta_ATR.c      | 19 ++++++++++++++-
 ta-lib-rt/c/src/ta_func/ta_MAVP.c     | 23 ++++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c     | 21 ++++++++++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCH.c    | 35 ++++++++++++++++++++-------
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c   | 35 ++++++++++++++++++++-------
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c | 27 +++++++++++++++++----
 6 files changed, 134 insertions(+), 26 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index f8ef12b..7df3637 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -250,6 +250,15 @@
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
 
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
+
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
                                     inHigh, inLow, inClose,
@@ -816,6 +825,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
@@ -833,7 +850,7 @@ TA_RetCode retCode;
 /* Generated */    if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */    {
 /* Generated */       ARRAY_FREE( tempBuffer );
-/* Generated */       return retCode;    
+/* Generated */       return retCode;
 /* Generated */    }
 /* Generated */    prevATR = prevATRTemp[0];
 /* Generated */    today = optInTimePeriod;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 49103a5..7b0cd9a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -274,6 +274,18 @@
    ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 
+   #if !defined( _JAVA )
+      if( !localOutputArray || !localResultArray || !localPeriodArray )
+      {
+         ARRAY_FREE(localOutputArray);
+         ARRAY_FREE(localResultArray);
+         ARRAY_INT_FREE(localPeriodArray);
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
+
    /* Copy caller array of period into local buffer.
     * At the same time, truncate to min/max.
 	*/
@@ -827,6 +839,17 @@ TA_RetCode retCode;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
 /* Generated */    ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !localOutputArray || !localResultArray || !localPeriodArray )
+/* Generated */       {
+/* Generated */          ARRAY_FREE(localOutputArray);
+/* Generated */          ARRAY_FREE(localResultArray);
+/* Generated */          ARRAY_INT_FREE(localPeriodArray);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 2c3b9bc..233b3c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -265,6 +265,15 @@
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
 
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
+
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
                                     inHigh, inLow, inClose,
@@ -839,6 +848,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
@@ -856,13 +873,13 @@ TA_RetCode retCode;
 /* Generated */    if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */    {
 /* Generated */       ARRAY_FREE( tempBuffer );
-/* Generated */       return retCode;    
+/* Generated */       return retCode;
 /* Generated */    }
 /* Generated */    prevATR = prevATRTemp[0];
 /* Generated */    today = optInTimePeriod;
 /* Generated */    outIdx = TA_GLOBALS_UNSTABLE_PERIOD(TA_FUNC_UNST_NATR,Natr);
 /* Generated */    while( outIdx != 0 )
-/* Generated */    {      
+/* Generated */    {
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index e4d81f2..218bcb3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -426,6 +426,15 @@
       }
    #endif
 
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
+
    /* Do the K calculation */
    while( today <= endIdx )
    {
@@ -1217,8 +1226,8 @@ TA_RetCode retCode;
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
 /* Generated */    #else
-/* Generated */       if( (outSlowK == inHigh) || 
-/* Generated */           (outSlowK == inLow)  || 
+/* Generated */       if( (outSlowK == inHigh) ||
+/* Generated */           (outSlowK == inLow)  ||
 /* Generated */           (outSlowK == inClose) )
 /* Generated */       {
 /* Generated */          tempBuffer = outSlowK;
@@ -1237,6 +1246,14 @@ TA_RetCode retCode;
 /* Generated */          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
 /* Generated */       }
 /* Generated */    #endif
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
 /* Generated */       tmp = inLow[today];
@@ -1290,22 +1307,22 @@ TA_RetCode retCode;
 /* Generated */       else
 /* Generated */         tempBuffer[outIdx++] = 0.0;
 /* Generated */       trailingIdx++;
-/* Generated */       today++; 
+/* Generated */       today++;
 /* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL_DOUBLE(MA)( 0, outIdx-1,
 /* Generated */                                        tempBuffer, optInSlowK_Period,
-/* Generated */                                        optInSlowK_MAType, 
+/* Generated */                                        optInSlowK_MAType,
 /* Generated */                                        outBegIdx, outNBElement, tempBuffer );
 /* Generated */    if( (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) ) || ((int)VALUE_HANDLE_DEREF(outNBElement) == 0) )
 /* Generated */    {
 /* Generated */       #if defined(USE_SINGLE_PRECISION_INPUT)
-/* Generated */          ARRAY_FREE( tempBuffer ); 
+/* Generated */          ARRAY_FREE( tempBuffer );
 /* Generated */       #else
-/* Generated */          ARRAY_FREE_COND( bufferIsAllocated, tempBuffer ); 
+/* Generated */          ARRAY_FREE_COND( bufferIsAllocated, tempBuffer );
 /* Generated */       #endif
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
-/* Generated */       return retCode; 
+/* Generated */       return retCode;
 /* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL_DOUBLE(MA)( 0, (int)VALUE_HANDLE_DEREF(outNBElement)-1,
 /* Generated */                                        tempBuffer, optInSlowD_Period,
@@ -1313,9 +1330,9 @@ TA_RetCode retCode;
 /* Generated */                                        outBegIdx, outNBElement, outSlowD );
 /* Generated */    ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
-/* Generated */       ARRAY_FREE( tempBuffer ); 
+/* Generated */       ARRAY_FREE( tempBuffer );
 /* Generated */    #else
-/* Generated */       ARRAY_FREE_COND( bufferIsAllocated, tempBuffer ); 
+/* Generated */       ARRAY_FREE_COND( bufferIsAllocated, tempBuffer );
 /* Generated */    #endif
 /* Generated */    if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index d2001c2..7a87347 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -382,6 +382,15 @@
       }
    #endif
 
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
+
    /* Do the K calculation */
    while( today <= endIdx )
    {
@@ -1126,8 +1135,8 @@ TA_RetCode retCode;
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
 /* Generated */    #else
-/* Generated */       if( (outFastK == inHigh) || 
-/* Generated */           (outFastK == inLow)  || 
+/* Generated */       if( (outFastK == inHigh) ||
+/* Generated */           (outFastK == inLow)  ||
 /* Generated */           (outFastK == inClose) )
 /* Generated */       {
 /* Generated */          tempBuffer = outFastK;
@@ -1146,6 +1155,14 @@ TA_RetCode retCode;
 /* Generated */          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
 /* Generated */       }
 /* Generated */    #endif
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
 /* Generated */       tmp = inLow[today];
@@ -1199,28 +1216,28 @@ TA_RetCode retCode;
 /* Generated */       else
 /* Generated */         tempBuffer[outIdx++] = 0.0;
 /* Generated */       trailingIdx++;
-/* Generated */       today++; 
+/* Generated */       today++;
 /* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL_DOUBLE(MA)( 0, outIdx-1,
 /* Generated */                                        tempBuffer, optInFastD_Period,
-/* Generated */                                        optInFastD_MAType, 
+/* Generated */                                        optInFastD_MAType,
 /* Generated */                                        outBegIdx, outNBElement, outFastD );
 /* Generated */    if( (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) ) || ((int)VALUE_HANDLE_DEREF(outNBElement)) == 0 )
 /* Generated */    {
 /* Generated */       #if defined(USE_SINGLE_PRECISION_INPUT)
-/* Generated */          ARRAY_FREE( tempBuffer ); 
+/* Generated */          ARRAY_FREE( tempBuffer );
 /* Generated */       #else
-/* Generated */          ARRAY_FREE_COND( bufferIsAllocated, tempBuffer ); 
+/* Generated */          ARRAY_FREE_COND( bufferIsAllocated, tempBuffer );
 /* Generated */       #endif
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
-/* Generated */       return retCode; 
+/* Generated */       return retCode;
 /* Generated */    }
 /* Generated */    ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
-/* Generated */       ARRAY_FREE( tempBuffer ); 
+/* Generated */       ARRAY_FREE( tempBuffer );
 /* Generated */    #else
-/* Generated */       ARRAY_FREE_COND( bufferIsAllocated, tempBuffer ); 
+/* Generated */       ARRAY_FREE_COND( bufferIsAllocated, tempBuffer );
 /* Generated */    #endif
 /* Generated */    if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 4091f44..48a28a9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -323,6 +323,15 @@
 
    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
 
+   #if !defined( _JAVA )
+      if( !tempRSIBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
+
    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
                                 endIdx, 
                                 inReal, 
@@ -883,12 +892,20 @@ TA_RetCode retCode;
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 /* Generated */    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
-/* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
-/* Generated */                                 endIdx, 
-/* Generated */                                 inReal, 
-/* Generated */                                 optInTimePeriod, 
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempRSIBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
+/* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF,
+/* Generated */                                 endIdx,
+/* Generated */                                 inReal,
+/* Generated */                                 optInTimePeriod,
 /* Generated */                                 VALUE_HANDLE_OUT(outBegIdx1),
-/* Generated */                                 VALUE_HANDLE_OUT(outNbElement1), 
+/* Generated */                                 VALUE_HANDLE_OUT(outNbElement1),
 /* Generated */                                 tempRSIBuffer);
 /* Generated */    if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) || VALUE_HANDLE_GET(outNbElement1) == 0 )
 /* Generated */    {
-- 
2.43.0


From c8a4a7971ca99a20ae29f090bad0f523a77a7bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 46/70] fix: NATR: close was read off by the start index and a
 zero close cleared the wrong output

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 233b3c6..413ab1b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -323,7 +323,7 @@
     * provided outReal.
     */
    outIdx = 1;
-   tempValue = inClose[today];
+   tempValue = inClose[startIdx-lookbackTotal+today];
    if( !TA_IS_ZERO(tempValue) )
       outReal[0] = (prevATR/tempValue)*100.0;
    else
@@ -337,11 +337,11 @@
       prevATR *= optInTimePeriod - 1;
       prevATR += tempBuffer[today++];
       prevATR /= optInTimePeriod;
-      tempValue = inClose[today];
+      tempValue = inClose[startIdx-lookbackTotal+today];
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -886,7 +886,7 @@ TA_RetCode retCode;
 /* Generated */       outIdx--;
 /* Generated */    }
 /* Generated */    outIdx = 1;
-/* Generated */    tempValue = inClose[today];
+/* Generated */    tempValue = inClose[startIdx-lookbackTotal+today];
 /* Generated */    if( !TA_IS_ZERO(tempValue) )
 /* Generated */       outReal[0] = (prevATR/tempValue)*100.0;
 /* Generated */    else
@@ -897,11 +897,11 @@ TA_RetCode retCode;
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
-/* Generated */       tempValue = inClose[today];
+/* Generated */       tempValue = inClose[startIdx-lookbackTotal+today];
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From a67d51dec4750dbb9268dbf46b15acbfb14f73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 47/70] fix: TRIX: first EMA started before its lookback, so
 ranges past the lookback lagged

---
 ta-lib-rt/c/src/ta_func/ta_TRIX.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 9590570..85d685d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -234,7 +234,7 @@
 
    /* Calculate the first EMA */   
    k = PER_TO_K(optInTimePeriod);  
-   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback+emaLookback), endIdx, inReal,
                                      optInTimePeriod, k,
                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 								     tempBuffer );
@@ -767,7 +767,7 @@ TA_RetCode retCode;
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx; 
+/* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    nbElementToOutput = (endIdx-startIdx)+1+totalLookback;
 /* Generated */    ARRAY_ALLOC(tempBuffer, nbElementToOutput );
 /* Generated */    #if !defined( _JAVA ) && !defined( USE_SUBARRAY )
@@ -778,8 +778,8 @@ TA_RetCode retCode;
 /* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */       }
 /* Generated */    #endif
-/* Generated */    k = PER_TO_K(optInTimePeriod);  
-/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+/* Generated */    k = PER_TO_K(optInTimePeriod);
+/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback+emaLookback), endIdx, inReal,
 /* Generated */                                      optInTimePeriod, k,
 /* Generated */                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 /* Generated */ 								     tempBuffer );
@@ -790,7 +790,7 @@ TA_RetCode retCode;
 /* Generated */       ARRAY_FREE( tempBuffer );
 /* Generated */       return retCode;
 /* Generated */    }
-/* Generated */    nbElementToOutput--; 
+/* Generated */    nbElementToOutput--;
 /* Generated */    nbElementToOutput -= emaLookback;
 /* Generated */    retCode = FUNCTION_CALL_DOUBLE(INT_EMA)( 0, nbElementToOutput, tempBuffer,
 /* Generated */                                             optInTimePeriod, k,
-- 
2.43.0


From cbe61c517377479275efcef0cdc553815faf9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 48/70] fix: STOCH, STOCHF: K was lost when the D output is one
 of the inputs

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 18 ++++--------------
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 18 ++++--------------
 2 files changed, 8 insertions(+), 28 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 218bcb3..fec9f6e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -391,8 +391,10 @@
    /* Allocate a temporary buffer large enough to
     * store the K.
     *
-    * If the output is the same as the input, great
-    * we just save ourself one memory allocation.
+    * If the %K output is the same as the input, great
+    * we just save ourself one memory allocation. (The %D
+    * output can't be used: %K is still needed after it
+    * is written).
     */
    #if !defined( _MANAGED ) && !defined(USE_SINGLE_PRECISION_INPUT) && !defined( _JAVA )
       bufferIsAllocated = 0;
@@ -411,12 +413,6 @@
       {
          tempBuffer = outSlowK;
       }
-      else if( (outSlowD == inHigh) ||
-               (outSlowD == inLow)  ||
-               (outSlowD == inClose) )
-      {
-         tempBuffer = outSlowD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined(_JAVA)
@@ -1232,12 +1228,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outSlowK;
 /* Generated */       }
-/* Generated */       else if( (outSlowD == inHigh) ||
-/* Generated */                (outSlowD == inLow)  ||
-/* Generated */                (outSlowD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outSlowD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined(_JAVA)
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 7a87347..8a6dc98 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -347,8 +347,10 @@
    /* Allocate a temporary buffer large enough to
     * store the K.
     *
-    * If the output is the same as the input, great
-    * we just save ourself one memory allocation.
+    * If the %K output is the same as the input, great
+    * we just save ourself one memory allocation. (The %D
+    * output can't be used: %K is still needed after it
+    * is written).
     */
    #if !defined( _MANAGED ) && !defined(USE_SINGLE_PRECISION_INPUT) && !defined( _JAVA )
       bufferIsAllocated = 0;
@@ -367,12 +369,6 @@
       {
          tempBuffer = outFastK;
       }
-      else if( (outFastD == inHigh) ||
-               (outFastD == inLow)  ||
-               (outFastD == inClose) )
-      {
-         tempBuffer = outFastD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined( _JAVA )
@@ -1141,12 +1137,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outFastK;
 /* Generated */       }
-/* Generated */       else if( (outFastD == inHigh) ||
-/* Generated */                (outFastD == inLow)  ||
-/* Generated */                (outFastD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outFastD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined( _JAVA )
-- 
2.43.0


From 512044213e3939b107a0c6ef8ca6c7cb52d6c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 49/70] fix: BBANDS: outputs and middle band were written past
 the requested range with MAMA

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 108 ++++++++++++++++++++++------
 1 file changed, 86 insertions(+), 22 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index f9113f3..14f87aa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -219,10 +219,11 @@
 {
    /* Insert local variables here. */
    ENUM_DECLARATION(RetCode) retCode;
-   int i, maBegIdx;
+   int i, maSkip;
    double tempReal, tempReal2;
    ARRAY_REF(tempBuffer1);
    ARRAY_REF(tempBuffer2);
+   ARRAY_REF(maBuffer);
 
 /**** START GENCODE SECTION 4 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -321,9 +322,51 @@
     * The other two bands will simply add/substract the
     * standard deviation from this middle band.
     */
-   retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
-                                optInTimePeriod, optInMAType,
-                                outBegIdx, outNBElement, tempBuffer1 );
+   maSkip = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+   if( maSkip > endIdx )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
+   /* The moving average might start before the standard deviation. The
+    * number of leading moving averages to drop is put into maSkip.
+    */
+   i = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   maSkip -= (startIdx > i)? startIdx : i;
+
+   if( maSkip <= 0 )
+   {
+      retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
+                                   optInTimePeriod, optInMAType,
+                                   outBegIdx, outNBElement, tempBuffer1 );
+   }
+   else
+   {
+      /* There is no room for the dropped averages in the outputs. */
+      ARRAY_ALLOC( maBuffer, endIdx-((startIdx > i)? startIdx : i)+1 );
+      #if !defined( _JAVA ) && !defined( USE_SUBARRAY )
+         if( !maBuffer )
+         {
+            VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+            VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         }
+      #endif
+
+      retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
+                                   optInTimePeriod, optInMAType,
+                                   outBegIdx, outNBElement, maBuffer );
+
+      if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+      {
+         VALUE_HANDLE_DEREF(outBegIdx) += maSkip;
+         VALUE_HANDLE_DEREF(outNBElement) -= maSkip;
+         ARRAY_MEMMOVE( tempBuffer1, 0, maBuffer, maSkip, (int)VALUE_HANDLE_DEREF(outNBElement) );
+      }
+      ARRAY_FREE( maBuffer );
+   }
 
    if( (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) ) || ((int)VALUE_HANDLE_DEREF(outNBElement) == 0) )
    {
@@ -344,7 +387,6 @@
    else
    {
       /* Calculate the Standard Deviation */
-      maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx);
       retCode = FUNCTION_CALL(STDDEV)( (int)VALUE_HANDLE_DEREF(outBegIdx), endIdx, inReal,
                                        optInTimePeriod, 1.0,
                                        outBegIdx, outNBElement, tempBuffer2 );
@@ -354,13 +396,6 @@
          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
          return retCode;
       }
-
-      /* Drop the leading moving averages for which there is no deviation. */
-      maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx) - maBegIdx;
-      if( maBegIdx > 0 )
-      {
-         ARRAY_MEMMOVE( tempBuffer1, 0, tempBuffer1, maBegIdx, (int)VALUE_HANDLE_DEREF(outNBElement) );
-      }
    }
 
    /* Copy the MA calculation into the middle band ouput, unless
@@ -961,10 +996,11 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /* Generated */ {
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
-/* Generated */    int i, maBegIdx;
+/* Generated */    int i, maSkip;
 /* Generated */    double tempReal, tempReal2;
 /* Generated */    ARRAY_REF(tempBuffer1);
 /* Generated */    ARRAY_REF(tempBuffer2);
+/* Generated */    ARRAY_REF(maBuffer);
 /* Generated */  #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */     if( startIdx < 0 )
 /* Generated */        return ENUM_VALUE(RetCode,TA_OUT_OF_RANGE_START_INDEX,OutOfRangeStartIndex);
@@ -1027,9 +1063,43 @@ TA_RetCode retCode;
 /* Generated */       if( (tempBuffer1 == inReal) || (tempBuffer2 == inReal) )
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    #endif
-/* Generated */    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
-/* Generated */                                 optInTimePeriod, optInMAType,
-/* Generated */                                 outBegIdx, outNBElement, tempBuffer1 );
+/* Generated */    maSkip = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+/* Generated */    if( maSkip > endIdx )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
+/* Generated */    i = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+/* Generated */    maSkip -= (startIdx > i)? startIdx : i;
+/* Generated */    if( maSkip <= 0 )
+/* Generated */    {
+/* Generated */       retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
+/* Generated */                                    optInTimePeriod, optInMAType,
+/* Generated */                                    outBegIdx, outNBElement, tempBuffer1 );
+/* Generated */    }
+/* Generated */    else
+/* Generated */    {
+/* Generated */       ARRAY_ALLOC( maBuffer, endIdx-((startIdx > i)? startIdx : i)+1 );
+/* Generated */       #if !defined( _JAVA ) && !defined( USE_SUBARRAY )
+/* Generated */          if( !maBuffer )
+/* Generated */          {
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          }
+/* Generated */       #endif
+/* Generated */       retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
+/* Generated */                                    optInTimePeriod, optInMAType,
+/* Generated */                                    outBegIdx, outNBElement, maBuffer );
+/* Generated */       if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF(outBegIdx) += maSkip;
+/* Generated */          VALUE_HANDLE_DEREF(outNBElement) -= maSkip;
+/* Generated */          ARRAY_MEMMOVE( tempBuffer1, 0, maBuffer, maSkip, (int)VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */       }
+/* Generated */       ARRAY_FREE( maBuffer );
+/* Generated */    }
 /* Generated */    if( (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) ) || ((int)VALUE_HANDLE_DEREF(outNBElement) == 0) )
 /* Generated */    {
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
@@ -1043,7 +1113,6 @@ TA_RetCode retCode;
 /* Generated */    }
 /* Generated */    else
 /* Generated */    {
-/* Generated */       maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx);
 /* Generated */       retCode = FUNCTION_CALL(STDDEV)( (int)VALUE_HANDLE_DEREF(outBegIdx), endIdx, inReal,
 /* Generated */                                        optInTimePeriod, 1.0,
 /* Generated */                                        outBegIdx, outNBElement, tempBuffer2 );
@@ -1052,11 +1121,6 @@ TA_RetCode retCode;
 /* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */          return retCode;
 /* Generated */       }
-/* Generated */       maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx) - maBegIdx;
-/* Generated */       if( maBegIdx > 0 )
-/* Generated */       {
-/* Generated */          ARRAY_MEMMOVE( tempBuffer1, 0, tempBuffer1, maBegIdx, (int)VALUE_HANDLE_DEREF(outNBElement) );
-/* Generated */       }
 /* Generated */    }
 /* Generated */    #if !defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       if( tempBuffer1 != outRealMiddleBand )
-- 
2.43.0


From 28a56fc940646a44235813a8c339f79cff29bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 50/70] fix: EMA, WLMA, APO, PPO, ULTOSC: StateInit mishandled
 default-marker periods

---
 ta-lib-rt/c/src/ta_func/ta_APO.c    | 18 ++++++++-------
 ta-lib-rt/c/src/ta_func/ta_EMA.c    |  3 +++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 35 ++++++++++++++++-------------
 ta-lib-rt/c/src/ta_func/ta_WLMA.c   |  3 +++
 4 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 07ab9f0..4a0fbf4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -493,14 +493,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
-
 
  #ifndef TA_FUNC_NO_RANGE_CHECK
 
@@ -525,6 +517,16 @@ if( optInSlowPeriod < optInFastPeriod )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+
+    /* Make sure slow is really slower than the fast period. */
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+        /* swap */
+        tempInteger     = optInSlowPeriod;
+        optInSlowPeriod = optInFastPeriod;
+        optInFastPeriod = tempInteger;
+    }
+
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
     if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 6f0f432..d8c09c8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,9 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 98bf324..26ab814 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -422,22 +422,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
    /* insert local variable here */
 #define TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
 
-   #define swap(x,y) \
-    { \
-       x = x ^ y; \
-       y = x ^ y; \
-       x = x ^ y; \
-    }
-
-   //sort optIns
-    if (optInTimePeriod1 < optInTimePeriod2) {
-        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
-    } else {
-        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
-        else swap(optInTimePeriod1, optInTimePeriod3);
-    }
-    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
-
 /**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -481,6 +465,25 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 
    /* insert state init code here. */
+   #define swap(x,y) \
+    { \
+       x = x ^ y; \
+       y = x ^ y; \
+       x = x ^ y; \
+    }
+
+   //sort optIns
+    if (optInTimePeriod1 < optInTimePeriod2) {
+        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
+    } else {
+        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
+        else swap(optInTimePeriod1, optInTimePeriod3);
+    }
+    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
+    STATE_P.optInTimePeriod1 = optInTimePeriod1;
+    STATE_P.optInTimePeriod2 = optInTimePeriod2;
+    STATE_P.optInTimePeriod3 = optInTimePeriod3;
+
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodA, double, optInTimePeriod3+1);
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodB, double, optInTimePeriod3+1);
 #undef swap
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 7949e1c..414f3ca 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,9 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
-- 
2.43.0


From a38cba166416dda388466704bf15235c8e0ddef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 51/70] fix: TA_SetUnstablePeriod/TA_GetUnstablePeriod accessed
 memory before the table for TA_FUNC_UNST_NONE

---
 ta-lib-rt/c/src/ta_func/ta_utility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.c b/ta-lib-rt/c/src/ta_func/ta_utility.c
index 2fb4b10..bbef606 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.c
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.c
@@ -68,7 +68,7 @@ TA_RetCode TA_SetUnstablePeriod( TA_FuncUnstId id,
 {
    int i;
 
-   if( id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
    if( id == ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
@@ -100,7 +100,7 @@ unsigned int Core::GetUnstablePeriod( enum class FuncUnstId id )
 unsigned int TA_GetUnstablePeriod( TA_FuncUnstId id )
 #endif
 {
-   if( id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
 	   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
    #if defined( _MANAGED )
-- 
2.43.0


From f9bd98d2dcee81195fa7678ae3b1183850ca5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 52/70] fix: TA_SetInputParamPricePtr replaced some components
 before refusing the call

---
 ta-lib-rt/c/src/ta_abstract/ta_abstract.c | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
index 67fffa9..68a8f2d 100644
--- a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
+++ b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
@@ -948,15 +948,31 @@ TA_RetCode TA_SetInputParamPricePtr( TA_ParamHolder     *param,
       return TA_INVALID_PARAM_HOLDER_TYPE;
    }
 
+   /* Verify that all the needed components are provided before
+    * changing anything.
+    */
+   #define CHECK_PARAM_INFO(lowerParam,upperParam) \
+   { \
+      if( (paramInfo->flags & TA_IN_PRICE_##upperParam) && (lowerParam == NULL) ) \
+      { \
+         return TA_BAD_PARAM; \
+      } \
+   }
+
+   CHECK_PARAM_INFO(open, OPEN );
+   CHECK_PARAM_INFO(high, HIGH );
+   CHECK_PARAM_INFO(low, LOW );
+   CHECK_PARAM_INFO(close, CLOSE );
+   CHECK_PARAM_INFO(volume, VOLUME );
+   CHECK_PARAM_INFO(openInterest, OPENINTEREST );
+
+   #undef CHECK_PARAM_INFO
+
    /* keep a copy of the provided parameter. */
    #define SET_PARAM_INFO(lowerParam,upperParam) \
    { \
       if( paramInfo->flags & TA_IN_PRICE_##upperParam ) \
       { \
-         if( lowerParam == NULL ) \
-         { \
-            return TA_BAD_PARAM; \
-         } \
          paramHolderPriv->in[paramIndex].data.inPrice.lowerParam = lowerParam; \
       } \
    }
-- 
2.43.0


From 53103adb0edc62568880dce79497d7526a979426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 53/70] fix: KAMA: efficiency ratio of a falling window could
 exceed one and overshoot the input

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 1262af1..79ca640 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -257,7 +257,7 @@
    trailingValue = tempReal2;
 
    /* Calculate the efficiency ratio */
-   if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1))
+   if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1))
       tempReal = 1.0;
    else
       tempReal = std_fabs(periodROC/sumROC1);
@@ -297,7 +297,7 @@
       trailingValue = tempReal2;
 
       /* Calculate the efficiency ratio */
-      if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+      if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
          tempReal = 1.0;
       else
          tempReal = std_fabs(periodROC/sumROC1);
@@ -337,7 +337,7 @@
       trailingValue = tempReal2;
 
       /* Calculate the efficiency ratio */
-      if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+      if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
          tempReal = 1.0;
       else
          tempReal = std_fabs(periodROC / sumROC1);
@@ -495,7 +495,7 @@
     periodROC = inReal - STATE.trailingValue;
 
 
-    if( (STATE.sumROC1 <= periodROC) || TA_IS_ZERO(STATE.sumROC1))
+    if( (STATE.sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(STATE.sumROC1))
         tempReal = 1.0;
     else
         tempReal = std_fabs(periodROC/STATE.sumROC1);
@@ -835,11 +835,11 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
 /* Generated */    sumROC1 = 0.0;
-/* Generated */    today = startIdx-lookbackTotal;   
+/* Generated */    today = startIdx-lookbackTotal;
 /* Generated */    trailingIdx = today;
 /* Generated */    i = optInTimePeriod;
 /* Generated */    while( i-- > 0 )
-/* Generated */    {      
+/* Generated */    {
 /* Generated */       tempReal  = inReal[today++];
 /* Generated */       tempReal -= inReal[today];
 /* Generated */       sumROC1  += std_fabs(tempReal);
@@ -849,7 +849,7 @@
 /* Generated */    tempReal2 = inReal[trailingIdx++];
 /* Generated */    periodROC = tempReal-tempReal2;
 /* Generated */    trailingValue = tempReal2;
-/* Generated */    if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1))
+/* Generated */    if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1))
 /* Generated */       tempReal = 1.0;
 /* Generated */    else
 /* Generated */       tempReal = std_fabs(periodROC/sumROC1);
@@ -864,7 +864,7 @@
 /* Generated */       sumROC1 -= std_fabs(trailingValue-tempReal2);
 /* Generated */       sumROC1 += std_fabs(tempReal-inReal[today-1]);
 /* Generated */       trailingValue = tempReal2;
-/* Generated */       if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+/* Generated */       if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
 /* Generated */          tempReal = 1.0;
 /* Generated */       else
 /* Generated */          tempReal = std_fabs(periodROC/sumROC1);
@@ -883,7 +883,7 @@
 /* Generated */       sumROC1 -= std_fabs(trailingValue-tempReal2);
 /* Generated */       sumROC1 += std_fabs(tempReal-inReal[today-1]);
 /* Generated */       trailingValue = tempReal2;
-/* Generated */       if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+/* Generated */       if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
 /* Generated */          tempReal = 1.0;
 /* Generated */       else
 /* Generated */          tempReal = std_fabs(periodROC / sumROC1);
-- 
2.43.0


From fb51231bfffc86fac02977b8b9d361b9d4854641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 54/70] fix: IMI: a window without any movement gave NaN

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 43c9c58..55e9b9c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -222,9 +222,13 @@
 			} else {
 				downsum += (open - close);
 			}
+		}
 
+		/* No movement at all in the window is reported as zero. */
+		if (TA_IS_ZERO(upsum + downsum))
+			outReal[outIdx] = 0.0;
+		else
 			outReal[outIdx] = 100.0*(upsum/(upsum + downsum));
-		}
 
 		startIdx++;
 		outIdx++;
@@ -362,7 +366,10 @@ double tempClose, tempOpen;
         }
 
 
-         VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+         if (TA_IS_ZERO(STATE.upsum + STATE.downsum))
+             VALUE_HANDLE_DEREF(outReal) = 0.0;
+         else
+             VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
 
          tempClose = POP_FROM_MEM(inClose);
          tempOpen = POP_FROM_MEM(inOpen);
@@ -696,8 +703,11 @@ double tempClose, tempOpen;
 /* Generated */ 			} else {
 /* Generated */ 				downsum += (open - close);
 /* Generated */ 			}
-/* Generated */ 			outReal[outIdx] = 100.0*(upsum/(upsum + downsum));
 /* Generated */ 		}
+/* Generated */ 		if (TA_IS_ZERO(upsum + downsum))
+/* Generated */ 			outReal[outIdx] = 0.0;
+/* Generated */ 		else
+/* Generated */ 			outReal[outIdx] = 100.0*(upsum/(upsum + downsum));
 /* Generated */ 		startIdx++;
 /* Generated */ 		outIdx++;
 /* Generated */    }
-- 
2.43.0


From 9504c61f2f4d88bb0d50f441c4b83e15737d0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 55/70] fix: IMI: an unstable period widened the summing window
 instead of dropping outputs

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 53 ++++++++++++++------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 55e9b9c..4c1c3c3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -213,7 +213,7 @@
 		double upsum = .0, downsum = .0;
 		int i;
 
-		for (i = startIdx - lookback; i <= startIdx; i++) {
+		for (i = startIdx - (optInTimePeriod-1); i <= startIdx; i++) {
 			double close = inClose[i];
 			double open = inOpen[i];
 
@@ -343,21 +343,7 @@ double tempClose, tempOpen;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-                if (NEED_MORE_DATA)
-        {
-
-
-            if (inClose > inOpen) {
-                STATE.upsum += (inClose - inOpen);
-            } else {
-                STATE.downsum += (inOpen - inClose);
-            }
-
-            PUSH_TO_MEM(inOpen,inOpen);
-            PUSH_TO_MEM(inClose,inClose);
-            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-        }
-
+        int needMoreData = NEED_MORE_DATA;
 
         if (inClose > inOpen) {
             STATE.upsum += (inClose - inOpen);
@@ -365,23 +351,30 @@ double tempClose, tempOpen;
             STATE.downsum += (inOpen - inClose);
         }
 
+        if (!needMoreData) {
+            if (TA_IS_ZERO(STATE.upsum + STATE.downsum))
+                VALUE_HANDLE_DEREF(outReal) = 0.0;
+            else
+                VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+        }
 
-         if (TA_IS_ZERO(STATE.upsum + STATE.downsum))
-             VALUE_HANDLE_DEREF(outReal) = 0.0;
-         else
-             VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+        /* The window is optInTimePeriod bars, whatever the unstable period. */
+        if (STATE.mem_index >= (size_t)STATE.optInTimePeriod) {
+            tempClose = MEM_IDX_NS(inClose, GET_LOCAL_IDX(1-STATE.optInTimePeriod));
+            tempOpen = MEM_IDX_NS(inOpen, GET_LOCAL_IDX(1-STATE.optInTimePeriod));
 
-         tempClose = POP_FROM_MEM(inClose);
-         tempOpen = POP_FROM_MEM(inOpen);
+            if (tempClose > tempOpen) {
+                STATE.upsum -= (tempClose - tempOpen);
+            } else {
+                STATE.downsum -= (tempOpen - tempClose);
+            }
+        }
 
-         if (tempClose > tempOpen) {
-             STATE.upsum -= (tempClose - tempOpen);
-         } else {
-             STATE.downsum -= (tempOpen - tempClose);
-         }
+        PUSH_TO_MEM(inOpen,inOpen);
+        PUSH_TO_MEM(inClose,inClose);
 
-         PUSH_TO_MEM(inOpen,inOpen);
-         PUSH_TO_MEM(inClose,inClose);
+        if (needMoreData)
+            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
         return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     }
@@ -695,7 +688,7 @@ double tempClose, tempOpen;
 /* Generated */    while (startIdx <= endIdx) {
 /* Generated */ 		double upsum = .0, downsum = .0;
 /* Generated */ 		int i;
-/* Generated */ 		for (i = startIdx - lookback; i <= startIdx; i++) {
+/* Generated */ 		for (i = startIdx - (optInTimePeriod-1); i <= startIdx; i++) {
 /* Generated */ 			double close = inClose[i];
 /* Generated */ 			double open = inOpen[i];
 /* Generated */ 			if (close > open) {
-- 
2.43.0


From bc2675f8f201d451eb9073cbbd20b694013d2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 56/70] fix: CDL2CROWS: streaming body average moved on before
 its window was full

---
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 2cdd5a4..8da94d8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -363,7 +363,7 @@
             STATE.BodyLongPeriodTotal = 0.;
       }
 
-   if (STATE.mem_index > MEM_SIZE-2)
+   if (!(NEED_MORE_DATA))
    {
        i1 = GET_LOCAL_IDX(-1);
        i2 = GET_LOCAL_IDX(-2);
@@ -382,7 +382,7 @@
            VALUE_HANDLE_DEREF(outInteger) = 0;
 
        STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 ) - TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
-   } else  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
+   } else if (STATE.mem_index <= MEM_SIZE-2) STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
 
 
    PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 6918a40ebb8e98297116decaf6738e0b42de5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 57/70] fix: CDL3INSIDE: streaming short average kept older
 bars when the periods differ by offset

---
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 1a77129..f0b0ab2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -408,9 +408,12 @@ unsigned int i1,i2;
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
                 }
 
-                if (!(NEED_MORE_DATA))
+                if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
                 {
                  STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
+                }
+                if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+                {
                  STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
                 }
 
-- 
2.43.0


From b4873895c5c51352a5ba3c941591af947aee86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 58/70] fix: CDLABANDONEDBABY: streaming averages covered the
 wrong bars

---
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index 154ae6d..dfd1330 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -436,11 +436,11 @@
                   STATE.BodyShortPeriodTotal = 0.;
 
                   STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) - 1;
+                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) + 1;
                   STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort);
 
-                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
-                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji;
+                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
+                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji + 1;
                   STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
             }
 
-- 
2.43.0


From c41f2cbc895ee90ba2be36d9bbd43f5f29bccc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 59/70] fix: CDLBREAKAWAY: streaming body average dropped the
 current bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index 4b5847a..d4a5dee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -422,7 +422,7 @@ unsigned int i1,i2,i3,i4;
 
         if (!(NEED_MORE_DATA))
         {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From f1af8e1fcc65f8e5ba265843cef0949627206e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 60/70] fix: CDLMATHOLD, CDLRISEFALL3METHODS: streaming
 averages started at the wrong bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 5b88db8..cfb8447 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -480,14 +480,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index 2eb6062..904d8fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -445,14 +445,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
             STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
-- 
2.43.0


From eb7cbc9f0ab0c285f50a22a06ea9a4140309cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 61/70] fix: CDLUPSIDEGAP2CROWS, CDLUNIQUE3RIVER: streaming
 averages started too early

---
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index 8997cf7..c40def2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -374,7 +374,7 @@ int i1,i2;
 
                  STATE.BodyLongPeriodTotal = 0.;
                  STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index 46d529a..a23baad 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -373,11 +373,11 @@ int i1,i2;
                    {
                          STATE.BodyShortPeriodTotal = 0.;
                          STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort) + 1;
-                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
+                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort + 1;
 
                          STATE.BodyLongPeriodTotal = 0.;
                          STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
                    }
 
                 i1 = GET_LOCAL_IDX(-1);
-- 
2.43.0


From ff99198a35fdb22282352d4bc2bde54f6b3552b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 62/70] fix: CDL3BLACKCROWS: streaming shadow average started
 too early

---
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index a34e189..993afb7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -413,7 +413,7 @@ unsigned int i1,i2,i3;
         }
 
 
-        if (STATE.mem_index-1 >= 2)
+        if (STATE.mem_index-1 >= 3)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
-- 
2.43.0


From ef321242113ff7bd81038fc3fbdeb215fa95ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 63/70] fix: CDLKICKING, CDLKICKINGBYLENGTH: streaming dropped
 bars with the wrong candle setting

---
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c         | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index c63fc3a..dd03806 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -441,9 +441,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index 3939352..4671742 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -448,9 +448,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 5f0203b1da6f53f587b303ac52724906fc34c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 64/70] fix: CDLSHOOTINGSTAR: streaming body average added bars
 with the wrong candle setting

---
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index ee84314..d75bc76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -409,7 +409,7 @@ int i1;
 
         if ((int)STATE.mem_index-1 >= STATE.gapBody)
         {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyLong );
+          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
         if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
-- 
2.43.0


From 4a90ed59a1502971449dd113516ac99fc3b8280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 65/70] fix: LINEARREG family, TSF: regression sums overflowed
 int for periods above 1024

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 12 ++++++------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 6299860..54d4e9b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -359,8 +359,8 @@
 
    if (FIRST_LAUNCH)
         { // init const values
-            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+            STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+            STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
             STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
           // init sums
             STATE.SumXY = 0;
@@ -705,8 +705,8 @@
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index eaeab96..0ce708e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -233,8 +233,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -360,8 +360,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -705,8 +705,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 60f6092..eceb67a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -358,8 +358,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -704,8 +704,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 8d13c3c..e1569dd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -230,8 +230,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -356,8 +356,8 @@ double tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -699,8 +699,8 @@ double tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index 3666eeb..30efe4b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -359,8 +359,8 @@ double m, b, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -705,8 +705,8 @@ double m, b, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
-- 
2.43.0


From 53a62a80f2733ea94dfd4d7b6d847380e137ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 66/70] fix: WMA, TRIMA: weight sum overflowed int for long
 periods

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_WMA.c   | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 43e6f91..1e809a9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -339,7 +339,7 @@
        *       on assignement to the factor variable.
        */
       i = (optInTimePeriod>>1);
-      factor = (i+1)*(i+1); 
+      factor = (double)(i+1)*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -412,7 +412,7 @@
        *  - Adjustment of numeratorAdd is different. See Step (2).
        */
       i = (optInTimePeriod>>1);
-      factor = i*(i+1); 
+      factor = (double)i*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -600,12 +600,12 @@ double tempReal;
             if( (STATE.optInTimePeriod % 2) == 1 )
             {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = (i+1)*(i+1);
+                STATE.factor = (double)(i+1)*(i+1);
                 STATE.factor = 1.0/STATE.factor;
                 STATE.middleIdx   = i;
             } else {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = i*(i+1);
+                STATE.factor = (double)i*(i+1);
                 STATE.factor = 1.0/STATE.factor;
 
                 STATE.middleIdx   = i - 1;
@@ -985,7 +985,7 @@ double tempReal;
 /* Generated */    if( (optInTimePeriod % 2) == 1 )
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = (i+1)*(i+1); 
+/* Generated */       factor = (double)(i+1)*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i;
@@ -1028,7 +1028,7 @@ double tempReal;
 /* Generated */    else
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = i*(i+1); 
+/* Generated */       factor = (double)i*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i - 1;
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 6972c50..cbe7b89 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -158,8 +158,8 @@
 /**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 {
    /* Insert local variables here. */
-   int inIdx, outIdx, i, trailingIdx, divider;
-   double periodSum, periodSub, tempReal, trailingValue;
+   int inIdx, outIdx, i, trailingIdx;
+   double periodSum, periodSub, tempReal, trailingValue, divider;
    int lookbackTotal;
 
    #if defined( USE_SINGLE_PRECISION_INPUT )
@@ -234,7 +234,7 @@
     * By induction: 1+2+3+4+'n' = n(n+1)/2
     * '>>1' is usually faster than '/2' for unsigned.
     */
-   divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+   divider = (double)optInTimePeriod*(optInTimePeriod+1)*0.5;
 
    /* The algo used here use a very basic property of
     * multiplication/addition: (x*2) = x+x
@@ -416,7 +416,7 @@
     {
             STATE.periodSum = 0.;
             STATE.periodSub = 0.;
-            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1))>>1; //const
+            STATE.divider =  (double)STATE.optInTimePeriod*(STATE.optInTimePeriod+1)*0.5; //const
     }
 
  if (NEED_MORE_DATA)
@@ -717,8 +717,8 @@
 /* Generated */                      double        outReal[] )
 /* Generated */ #endif
 /* Generated */ {
-/* Generated */    int inIdx, outIdx, i, trailingIdx, divider;
-/* Generated */    double periodSum, periodSub, tempReal, trailingValue;
+/* Generated */    int inIdx, outIdx, i, trailingIdx;
+/* Generated */    double periodSum, periodSub, tempReal, trailingValue, divider;
 /* Generated */    int lookbackTotal;
 /* Generated */    #if defined( USE_SINGLE_PRECISION_INPUT )
 /* Generated */       ARRAY_MEMMOVEMIX_VAR;
@@ -760,7 +760,7 @@
 /* Generated */       #endif
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+/* Generated */    divider = (double)optInTimePeriod*(optInTimePeriod+1)*0.5;
 /* Generated */    outIdx      = 0;
 /* Generated */    trailingIdx = startIdx - lookbackTotal;
 /* Generated */    periodSum = periodSub = (double)0.0;
-- 
2.43.0


From 371be8a571bb2fc285ef542cc82d737ca06a1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 67/70] fix: STOCH, STOCHF: do not copy with a stale count when
 the %D average fails

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 6 ++++--
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index fec9f6e..47ae901 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -531,7 +531,8 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+      ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -1318,7 +1319,8 @@ TA_RetCode retCode;
 /* Generated */                                        tempBuffer, optInSlowD_Period,
 /* Generated */                                        optInSlowD_MAType,
 /* Generated */                                        outBegIdx, outNBElement, outSlowD );
-/* Generated */    ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */       ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer );
 /* Generated */    #else
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 8a6dc98..242a56e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -477,7 +477,8 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+      ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -1223,7 +1224,8 @@ TA_RetCode retCode;
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */       return retCode;
 /* Generated */    }
-/* Generated */    ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */       ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer );
 /* Generated */    #else
-- 
2.43.0


From f1599919151f35fb40dab16c815b9f5c8038b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 68/70] fix: MAVP: clamp the periods before converting them to
 int

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 7b0cd9a..1bf4838 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -291,9 +291,13 @@
 	*/
    for( i=0; i < outputSize; i++ )
    {
-      tempInt = (int)(inPeriods[startIdx+i]);
-	  if( tempInt < optInMinPeriod )
-		  tempInt = optInMinPeriod;
+      /* Compare before converting: not every double fits in an int. */
+      if( inPeriods[startIdx+i] > optInMaxPeriod )
+          tempInt = optInMaxPeriod;
+      else if( inPeriods[startIdx+i] >= optInMinPeriod )
+          tempInt = (int)(inPeriods[startIdx+i]);
+      else
+          tempInt = optInMinPeriod;
 	  /* The maximum decides last: the lookback is calculated with it. */
 	  if( tempInt > optInMaxPeriod )
           tempInt = optInMaxPeriod;
@@ -852,9 +856,12 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
-/* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
-/* Generated */ 	  if( tempInt < optInMinPeriod )
-/* Generated */ 		  tempInt = optInMinPeriod;
+/* Generated */       if( inPeriods[startIdx+i] > optInMaxPeriod )
+/* Generated */           tempInt = optInMaxPeriod;
+/* Generated */       else if( inPeriods[startIdx+i] >= optInMinPeriod )
+/* Generated */           tempInt = (int)(inPeriods[startIdx+i]);
+/* Generated */       else
+/* Generated */           tempInt = optInMinPeriod;
 /* Generated */ 	  if( tempInt > optInMaxPeriod )
 /* Generated */           tempInt = optInMaxPeriod;
 /* Generated */       localPeriodArray[i] = tempInt;
-- 
2.43.0


From 8e0488267f67859de043018d88d67ab4028d9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 69/70] fix: PER_TO_K: no integer overflow on an unchecked
 period

---
 ta-lib-rt/c/src/ta_func/ta_utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.h b/ta-lib-rt/c/src/ta_func/ta_utility.h
index 1789fc7..9d8e65c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.h
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.h
@@ -416,7 +416,7 @@ void TA_S_INT_stddev_using_precalc_ma( const float  *inReal,
  *
  * Useful to calculate the 'k' for TA_INT_EMA().
  */
-#define PER_TO_K( per ) ((double)2.0 / ((double)(per + 1)))
+#define PER_TO_K( per ) ((double)2.0 / ((double)(per) + 1.0))
 
 /* Convert a period into the equivalent k:
  *
-- 
2.43.0


From c25c38c81997fe259f631e69face75b5f4af28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 70/70] fix: NATR with a period of 1 is normalized like every
 other period

With a period of 1 the batch functions returned the plain true range instead of
100*TR/close, so the result had the unit of the price and did not match the
documented NATR = ATR(period)/Close*100. No shortcut is needed: the general path
handles a period of 1.
---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 413ab1b..02768a4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -253,15 +253,6 @@
    if( startIdx > endIdx )
       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
-   /* Trap the case where no smoothing is needed. */
-   if( optInTimePeriod <= 1 )
-   {
-      /* No smoothing needed. Just do a TRANGE. */
-      return FUNCTION_CALL(TRANGE)( startIdx, endIdx,
-                                    inHigh, inLow, inClose,
-                                    outBegIdx, outNBElement, outReal );
-   }
-
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
 
@@ -491,9 +482,7 @@ double tempReal, tempATR;
         if (NEED_MORE_DATA)
         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
-        if( STATE.optInTimePeriod <= 1 ) /* Like the batch: just a TRANGE. */
-        VALUE_HANDLE_DEREF(outReal) = STATE.prevATR;
-        else if( !TA_IS_ZERO(inClose) )
+        if( !TA_IS_ZERO(inClose) )
         VALUE_HANDLE_DEREF(outReal) = (STATE.prevATR/inClose)*100.0;
         else VALUE_HANDLE_DEREF(outReal) = 0.;
 
@@ -841,12 +830,6 @@ TA_RetCode retCode;
 /* Generated */       startIdx = lookbackTotal;
 /* Generated */    if( startIdx > endIdx )
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-/* Generated */    if( optInTimePeriod <= 1 )
-/* Generated */    {
-/* Generated */       return FUNCTION_CALL(TRANGE)( startIdx, endIdx,
-/* Generated */                                     inHigh, inLow, inClose,
-/* Generated */                                     outBegIdx, outNBElement, outReal );
-/* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
 /* Generated */    #if !defined( _JAVA )
 /* Generated */       if( !tempBuffer )
-- 
2.43.0

