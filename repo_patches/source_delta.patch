From 80b68d40e44e76daf11268832f27dc891e282b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:26 +0000
Subject: [PATCH 01/46] fix: check the number of values before reading them in
 StateSpace setUInt64

Setting a structural parameter read one value and advanced the index before
checking the number of values. Every call with a single value was rejected
and an empty array was read out of bounds.
---
 StateSpace/model.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..181b267 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,8 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
+
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +272,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +279,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +286,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From e9b384ea95f222ed0cedea90c44b2eeb7edb90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:26 +0000
Subject: [PATCH 02/46] fix: use the n x m shape of B in StateSpace

der(x) summed B*u over r instead of m columns, and B was read back as an
m x n matrix although it is set and declared as n x m.
---
 StateSpace/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 181b267..28ad32d 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
@@ -100,8 +100,8 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             return OK;
         case vr_B:
             ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From 40aeb68cd14064fef969ca9b3dadee7d4b380e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:26 +0000
Subject: [PATCH 03/46] fix: apply the start values x0 in StateSpace

The parameter x0 was stored but never used, and it survived a reset.
---
 StateSpace/model.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 28ad32d..57e4141 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,8 +27,8 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
+        M(x0)[i] = 0;
         M(x)[i] = M(x0)[i];
-        M(x)[i] = 0;
     }
 
     comp->isDirtyValues = true;
@@ -200,6 +200,9 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         ASSERT_NVALUES((size_t)M(n));
         for (size_t i = 0; i < M(n); i++) {
             M(x0)[i] = values[(*index)++];
+            if (comp->state == Instantiated || comp->state == InitializationMode) {
+                M(x)[i] = M(x0)[i];
+            }
         }
         break;
     case vr_u:
-- 
2.43.0


From 7ed045254ca12bb36a0a7af298a99edcd9835f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:07 +0000
Subject: [PATCH 04/46] fix: clear the event information in reset

After a simulation that asked for termination, a reset instance still
reported terminateSimulation and stopped in the first step. The start and
stop time bookkeeping of the previous run was kept as well.
---
 src/cosimulation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..cc248a1 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -161,9 +161,18 @@ Status reset(ModelInstance* comp) {
 
     comp->state = Instantiated;
     comp->startTime = 0.0;
+    comp->stopTime = 0.0;
     comp->time = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->nextCommunicationPoint = 0.0;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0;
+    comp->clocksTicked = false;
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From 14f52f245faaf8bf0e3450c5fb6b8c8e22b09bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:07 +0000
Subject: [PATCH 05/46] fix: check the number of values before reading them in
 setters

Feedthrough and Stair looked at the next value before checking that there is
one, so a call with too few values was read out of bounds.
---
 Feedthrough/model.c | 8 ++++----
 Stair/model.c       | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..bb1b504 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -648,11 +648,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -698,11 +698,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -767,11 +767,11 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -791,11 +791,11 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..19c5df6 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,13 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
+
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
-- 
2.43.0


From 04bcaf07dd323f9be49eb439258cf50b0e9497b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:07 +0000
Subject: [PATCH 06/46] fix: do not accept setting Boolean_output in
 Feedthrough

All other outputs reject being set.
---
 Feedthrough/model.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index bb1b504..18d847e 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -746,10 +746,6 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
             ASSERT_NVALUES(1);
             M(Boolean_input) = values[(*index)++];
             break;
-        case vr_Boolean_output:
-            ASSERT_NVALUES(1);
-            M(Boolean_output) = values[(*index)++];
-            break;
         default:
             logError(comp, "Set Boolean is not allowed for value reference %u.", vr);
             return Error;
-- 
2.43.0


From 01b0b2b7231f0b4e9bef20d9d8bd42b0d2c53a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 07/46] fix: reject NULL arrays when booleans or the inputs of
 Clocks are accessed

fmi2GetBoolean, fmi2SetBoolean and fmi3SetInt32 of Clocks dereferenced the
arrays without checking them, unlike all other getters and setters.
---
 Clocks/model.c      | 1 +
 src/fmi2Functions.c | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/Clocks/model.c b/Clocks/model.c
index 97d28f3..613a249 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -171,6 +171,7 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
 
 Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[], size_t nValues, size_t* index) {
 
+    ASSERT_NOT_NULL2(values);
     ASSERT_NVALUES(1);
 
     switch (vr) {
diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..d47fba8 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,9 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,6 +73,9 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
-- 
2.43.0


From a7d3fffead822f9887e6fdb06525a7b344977e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 08/46] fix: reject a wrong number of values in fmi3GetBinary

All other getters already check this. Entries that do not belong to a
variable were left uninitialized.
---
 src/fmi3Functions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..a023fd0 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -574,6 +574,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
-- 
2.43.0


From 07d78a857a2fffdd8bfc9e32559d209b123540f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 09/46] fix: report failures of the FMI 2 state functions

fmi2GetFMUstate and fmi2SetFMUstate returned fmi2OK when they failed, and
fmi2DeSerializeFMUstate wrote to NULL when it ran out of memory.
---
 src/fmi2Functions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index d47fba8..4060238 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -373,13 +373,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
@@ -423,6 +423,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "Failed to allocate memory for FMUstate.");
+            CALL(Error);
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
-- 
2.43.0


From 98753e0b0711c8645a433fcb4690d87b1b2dc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 10/46] fix: terminate long resource paths in Resource

A resource path of 4096 or more characters left the buffer without a
terminating null character, so strncat wrote past its end.
---
 Resource/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..3ca53e8 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -89,7 +89,7 @@ Status calculateValues(ModelInstance *comp) {
 
     *dst = '\0';
 #else
-    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH);
+    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH-1);
 #endif
 
 #if FMI_VERSION == 2
-- 
2.43.0


From 35e6a8795af7220be302013725dff09af51fe4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 11/46] fix: do not instantiate models for Co-Simulation that
 do not support it

Clocks only implements Scheduled Execution but could be instantiated for
Co-Simulation. The other two interface types are already guarded.
---
 src/fmi3Functions.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index a023fd0..08ecfc2 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -302,6 +302,19 @@ fmi3Instance fmi3InstantiateCoSimulation(
     UNUSED(requiredIntermediateVariables);
     UNUSED(nRequiredIntermediateVariables);
 
+#ifndef CO_SIMULATION
+    UNUSED(instanceName);
+    UNUSED(instantiationToken);
+    UNUSED(resourcePath);
+    UNUSED(loggingOn);
+    UNUSED(eventModeUsed);
+    UNUSED(earlyReturnAllowed);
+    UNUSED(instanceEnvironment);
+    UNUSED(logMessage);
+    UNUSED(intermediateUpdate);
+
+    return NULL;
+#else
 #ifndef EVENT_UPDATE
     if (eventModeUsed) {
         if (logMessage) {
@@ -328,6 +341,7 @@ fmi3Instance fmi3InstantiateCoSimulation(
     }
 
     return instance;
+#endif
 }
 
 fmi3Instance fmi3InstantiateScheduledExecution(
-- 
2.43.0


From 12219cb6150fd183b1060bc236411ee61bcb9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 12/46] fix: calculate g1 and g2 in Roberts

The model description declares them as the variables of the event
indicators, but they were always zero.
---
 Roberts/model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index acba211..f7431a7 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -30,6 +30,9 @@ Status calculateValues(ModelInstance *comp) {
 
     M(r) = M(y1) + M(y2) + M(y3) - 1.0;
 
+    M(g1) = M(y1) - 0.0001;
+    M(g2) = M(y3) - 0.01;
+
     comp->isDirtyValues = false;
 
     return OK;
-- 
2.43.0


From 2c388c75a0a7676c7c32fb37d48977c34acba771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 13/46] fix: respect the dependency of y3 in the partial
 derivatives of Roberts

With dae=false y3 is calculated from y1 and y2, but the partial derivatives
treated it as independent.
---
 Roberts/model.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index f7431a7..0551713 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -198,6 +198,17 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
         *partialDerivative = 0.0;
     }
 
+    // without the DAE formulation y3 depends on y1 and y2
+    if (!M(dae) && (known == vr_y1 || known == vr_y2)) {
+        if (unknown == vr_der_y1) {
+            *partialDerivative -= 1e4 * M(y2);
+        } else if (unknown == vr_der_y2) {
+            *partialDerivative += 1e4 * M(y2);
+        } else if (unknown == vr_r || unknown == vr_y3) {
+            *partialDerivative -= 1.0;
+        }
+    }
+
     return OK;
 }
 
-- 
2.43.0


From 6878aeeee8084997f5df1640018cec9d84b31fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 14/46] fix: do not announce Event Mode in the model
 description of Roberts

Instantiating Roberts with eventModeUsed is rejected.
---
 Roberts/FMI3.xml | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index ef5db34..eebede4 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,8 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-3"
-    hasEventMode="true"/>
+    fixedInternalStepSize="1e-3"/>
 
   <LogCategories>
     <Category name="logEvents" description="Log events"/>
-- 
2.43.0


From a9a50316b00dbcf54d9d687082dbadbcef1eeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:58 +0000
Subject: [PATCH 15/46] fix: survive failing allocations when instantiating and
 logging

A failed copy of the instance name leaked the instance, a failed copy of the
resource location was ignored, and a log message was written to NULL.
---
 src/cosimulation.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index cc248a1..8a992a1 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,8 +84,9 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
         logError(comp, "Out of memory.");
+        freeModelInstance(comp);
         return NULL;
     }
 
@@ -295,6 +296,10 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
 
     va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
+    if (!buf) {
+        va_end(args1);
+        return;
+    }
     len = vsnprintf(buf, len + 1, message, args);
     va_end(args1);
 
-- 
2.43.0


From 4f99738cda2d1bcdb31793e40f2202957e60c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 16/46] fix: reject communication step sizes that are NaN or
 infinite

Without a stop time fmi2DoStep() and fmi3DoStep() never returned.
---
 src/fmi2Functions.c | 2 +-
 src/fmi3Functions.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 4060238..dfe723e 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -520,7 +520,7 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
         logError(S, "Communication step size must be > 0 but was %g.", communicationStepSize);
         CALL(Error);
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 08ecfc2..0bf7c73 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1228,7 +1228,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
         logError(S, "Communication step size must be > 0 but was %.16g.", communicationStepSize);
         CALL(Error);
     }
-- 
2.43.0


From e90b39c3d4ed9cab6aed9013774e5c549c6b62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 17/46] fix: check the array sizes in
 fmi3GetDirectionalDerivative and fmi3GetAdjointDerivative

Short seed arrays were read and short sensitivity arrays written past their end.
---
 src/fmi3Functions.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 0bf7c73..cfeca41 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -864,14 +864,15 @@ fmi3Status fmi3GetDirectionalDerivative(fmi3Instance instance,
     fmi3Float64 sensitivity[],
     size_t nSensitivity) {
 
-    UNUSED(nSeed);
-    UNUSED(nSensitivity);
-
     BEGIN_FUNCTION(GetDirectionalDerivative);
 
     // TODO: check value references
-    // TODO: assert nUnknowns == nDeltaOfUnknowns
-    // TODO: assert nKnowns == nDeltaKnowns
+
+    if (nSeed != nKnowns || nSensitivity != nUnknowns) {
+        logError(S, "Expected nSeed=%zu and nSensitivity=%zu but was nSeed=%zu and nSensitivity=%zu.",
+            nKnowns, nUnknowns, nSeed, nSensitivity);
+        CALL(Error);
+    }
 
     for (size_t i = 0; i < nUnknowns; i++) {
         sensitivity[i] = 0;
@@ -895,13 +896,16 @@ fmi3Status fmi3GetAdjointDerivative(fmi3Instance instance,
     fmi3Float64 sensitivity[],
     size_t nSensitivity) {
 
-    UNUSED(nSeed);
-    UNUSED(nSensitivity);
-
     BEGIN_FUNCTION(GetAdjointDerivative);
 
     // TODO: check value references
 
+    if (nSeed != nUnknowns || nSensitivity != nKnowns) {
+        logError(S, "Expected nSeed=%zu and nSensitivity=%zu but was nSeed=%zu and nSensitivity=%zu.",
+            nUnknowns, nKnowns, nSeed, nSensitivity);
+        CALL(Error);
+    }
+
     for (size_t i = 0; i < nKnowns; i++) {
         sensitivity[i] = 0;
         for (size_t j = 0; j < nUnknowns; j++) {
-- 
2.43.0


From 4e289232fa7eb1847c0ea45344f559bbd2df9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 18/46] fix: check nValues in fmi3GetOutputDerivatives

A short values array was written past its end.
---
 src/fmi3Functions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index cfeca41..d7e8496 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1194,11 +1194,14 @@ fmi3Status fmi3GetOutputDerivatives(fmi3Instance instance,
     const fmi3Int32 orders[],
     fmi3Float64 values[],
     size_t nValues) {
-    UNUSED(nValues);
-
     BEGIN_FUNCTION(GetOutputDerivatives);
 
 #ifdef GET_OUTPUT_DERIVATIVE
+    if (nValues != nValueReferences) {
+        logError(S, "Expected nValues=%zu but was %zu.", nValueReferences, nValues);
+        CALL(Error);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getOutputDerivative(S, (ValueReference)valueReferences[i], orders[i], &values[i]));
     }
@@ -1207,6 +1210,7 @@ fmi3Status fmi3GetOutputDerivatives(fmi3Instance instance,
     UNUSED(nValueReferences);
     UNUSED(orders);
     UNUSED(values);
+    UNUSED(nValues);
 
     NOT_IMPLEMENTED;
 #endif
-- 
2.43.0


From 3396ab8fd942b42e24ebeafe3f887d49c697f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 19/46] fix: escape percent signs in the log messages of FMI 2
 FMUs

The logger of FMI 2 is variadic and takes the message as a format string.
A message that quotes e.g. a GUID or file name with a percent sign made it read missing arguments.
---
 src/cosimulation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 8a992a1..a511ea1 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -304,9 +304,20 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
     va_end(args1);
 
     if (len >= 0) {
-        // no need to distinguish between FMI versions since we're not using variadic arguments
 #if FMI_VERSION < 3
-        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, buf);
+        // escape the expanded message because it is interpreted as a format string
+        char *escaped = (char *)calloc(2 * (size_t)len + 1, sizeof(char));
+        if (escaped) {
+            char *e = escaped;
+            for (const char *s = buf; *s; s++) {
+                if (*s == '%') {
+                    *e++ = '%';
+                }
+                *e++ = *s;
+            }
+            comp->logger(comp->componentEnvironment, comp->instanceName, status, category, escaped);
+            free(escaped);
+        }
 #else
         comp->logger(comp->componentEnvironment, status, category, buf);
 #endif
-- 
2.43.0


From afc3d45596cd2c595217531b2653b3a85c4b5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 20/46] fix: grow the log message buffer far enough

Messages that exactly filled the buffer lost their last character, and arrays that exactly filled it were never finished.
---
 src/FMI.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..08a13a0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -206,7 +206,7 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
+        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
             instance->logMessageBufferSize *= 2;
         }
 
@@ -319,7 +319,7 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
+            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
                 instance->logMessageBufferSize *= 2;
             }
 
-- 
2.43.0


From 678dfabec03460be138fcd4cdac0cecb55d47f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 21/46] fix: encode control and non-ASCII characters in
 FMIPathToURI

They were padded with spaces or sign extended, which overflowed the buffer.
---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 08a13a0..9ceb3e3 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -383,7 +383,7 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
         }
 
         if (encode) {
-            sprintf(&uri[p], "%%%2X", c);
+            sprintf(&uri[p], "%%%02X", (unsigned char)c);
             p += 3;
         } else {
             uri[p++] = c;
-- 
2.43.0


From 91ccf17740d5bd21b466b69c5fc1c2a477d5a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 22/46] fix: accept an empty directory in FMIPlatformBinaryPath

The character before the string was read.
---
 src/FMI.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 9ceb3e3..501dfb0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -400,7 +400,9 @@ FMIStatus FMIPlatformBinaryPath(const char *unzipdir, const char *modelIdentifie
 
     char* separator = ""; // optional separator after the unzipdir
 
-    const char last = unzipdir[strlen(unzipdir) - 1];
+    const size_t length = strlen(unzipdir);
+
+    const char last = length > 0 ? unzipdir[length - 1] : '/';
 
     if (last != '/' && last != '\\') {
         separator = FMI_FILE_SEPARATOR;
-- 
2.43.0


From 44ba5dd850c5f15acfccb1e18dabfc33441659a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 23/46] fix: pass the missing arguments when the calls of
 SetDebugLogging are logged

---
 src/FMI2.c | 2 +-
 src/FMI3.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..b73f9fd 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -123,7 +123,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..3ba53c1 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -110,7 +110,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
@@ -920,7 +920,7 @@ FMIStatus FMI3GetIntervalFraction(FMIInstance *instance,
     fmi3UInt64 resolutions[],
     fmi3IntervalQualifier qualifiers[]) {
     CALL_ARGS(GetIntervalFraction,
-        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=%d",
+        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=0x%p",
         valueReferences, nValueReferences, intervalCounters, resolutions, qualifiers);
 }
 
-- 
2.43.0


From bd20b35c1a36bdc000a6f7bad02516759b3102bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 24/46] fix: log the number of event indicators and continuous
 states instead of their addresses

---
 src/FMI3.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 3ba53c1..383801a 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1127,12 +1127,34 @@ FMIStatus FMI3GetNominalsOfContinuousStates(FMIInstance *instance,
 
 FMIStatus FMI3GetNumberOfEventIndicators(FMIInstance *instance,
     size_t* nEventIndicators) {
-    CALL_ARGS(GetNumberOfEventIndicators, "nEventIndicators=%zu", nEventIndicators);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfEventIndicators(instance->component, nEventIndicators);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfEventIndicators(nEventIndicators=%zu)", *nEventIndicators);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetNumberOfContinuousStates(FMIInstance *instance,
     size_t* nContinuousStates) {
-    CALL_ARGS(GetNumberOfContinuousStates, "nContinuousStates=%zu", nContinuousStates);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfContinuousStates(instance->component, nContinuousStates);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfContinuousStates(nContinuousStates=%zu)", *nContinuousStates);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 /***************************************************
-- 
2.43.0


From 07c0b545261f28da1425e6dec3438c4090fc7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:08 +0000
Subject: [PATCH 25/46] fix: load fmi3SetShiftDecimal and fmi3SetShiftFraction

FMI3SetShiftDecimal() and FMI3SetShiftFraction() called a NULL pointer.
---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 383801a..4619475 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -209,6 +209,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From 0cf83c3760162454757c9e69e4a865bde9b1e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:19 +0000
Subject: [PATCH 26/46] fix: stop instantiating for Model Exchange when a
 function is missing

The missing function was called although it could not be loaded.
---
 src/FMI3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 4619475..cb0ff6f 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -264,6 +264,10 @@ FMIStatus FMI3InstantiateModelExchange(
 
     const FMIStatus status = loadSymbols3(instance);
 
+    if (status != FMIOK) {
+        return FMIError;
+    }
+
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
     instance->component = instance->fmi3Functions->fmi3InstantiateModelExchange(instance->name, instantiationToken, resourcePath, visible, loggingOn, instance, logMessage);
-- 
2.43.0


From 49923f84a439c829ac6502adff563fc4a8ddb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:19 +0000
Subject: [PATCH 27/46] fix: track the change to Step Mode in FMI3EnterStepMode

---
 src/FMI3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index cb0ff6f..5874ddb 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1170,6 +1170,7 @@ Types for Functions for Co-Simulation
 /* Simulating the FMU */
 
 FMIStatus FMI3EnterStepMode(FMIInstance *instance) {
+    instance->state = FMIStepModeState;
     CALL(EnterStepMode);
 }
 
-- 
2.43.0


From 14bc91dfd9342e0f15c9c84a4e7596f5e3e73752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:57 +0000
Subject: [PATCH 28/46] fix: refresh the event indicators after events handled
 in Event Mode

In co-simulation with Event Mode the indicators remembered for the
zero-crossing detection still had their values from before the event.
The step after every bounce therefore reported a second event.
---
 src/fmi3Functions.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index d7e8496..b1426a8 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1185,6 +1185,11 @@ fmi3Status fmi3GetNumberOfContinuousStates(fmi3Instance instance,
 fmi3Status fmi3EnterStepMode(fmi3Instance instance) {
     BEGIN_FUNCTION(EnterStepMode);
     S->state = StepMode;
+#if MAX_EVENT_INDICATORS > 0
+    if (S->nz > 0) {
+        CALL(getEventIndicators(S, S->prez, S->nz));
+    }
+#endif
     END_FUNCTION();
 }
 
@@ -1268,6 +1273,9 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
             eventUpdate(S);
+#if MAX_EVENT_INDICATORS > 0
+            CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
             *eventHandlingNeeded = fmi3False;
         }
 #endif
-- 
2.43.0


From 9e68622d0c0c3115c0fdd162ae3c5cab9346a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:12 +0000
Subject: [PATCH 29/46] fix: add the partial derivatives of the event
 indicators of Roberts

---
 Roberts/model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Roberts/model.c b/Roberts/model.c
index 0551713..887e6a3 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -194,6 +194,10 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
         *partialDerivative = 1.0;
     } else if (unknown == vr_r && known == vr_y3) {
         *partialDerivative = 1.0;
+    } else if (unknown == vr_g1 && known == vr_y1) {
+        *partialDerivative = 1.0;
+    } else if (unknown == vr_g2 && known == vr_y3) {
+        *partialDerivative = 1.0;
     } else {
         *partialDerivative = 0.0;
     }
@@ -204,7 +208,7 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
             *partialDerivative -= 1e4 * M(y2);
         } else if (unknown == vr_der_y2) {
             *partialDerivative += 1e4 * M(y2);
-        } else if (unknown == vr_r || unknown == vr_y3) {
+        } else if (unknown == vr_r || unknown == vr_y3 || unknown == vr_g2) {
             *partialDerivative -= 1.0;
         }
     }
-- 
2.43.0


From 1f0d6c8fa6f035cefe40e2cca17a96a3467116b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:44 +0000
Subject: [PATCH 30/46] fix: avoid signed overflow when result2 of Clocks is
 accumulated

---
 Clocks/model.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 613a249..a0f555f 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -62,7 +62,8 @@ static void activateModelPartition2(ModelInstance* comp, double time) {
     M(inClock2Ticks)++;
     M(totalInClockTicks)++;
 
-    M(result2) += M(input2);
+    // wrap around instead of overflowing
+    M(result2) = (int)((unsigned int)M(result2) + (unsigned int)M(input2));
     M(input2) = 0;
 
     // set output clocks
-- 
2.43.0


From 8f662b5b26ae0f3aaf6cc0b040170ebe79ef8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:16 +0000
Subject: [PATCH 31/46] fix: never take an infinite communication point for the
 expected one

fmi2DoStep() and fmi3DoStep() did not return when they were called with
an infinite current communication point.
---
 src/cosimulation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index a511ea1..00db498 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>  // for calloc(), free()
 #include <float.h>   // for DBL_EPSILON
+#include <math.h>    // for isinf()
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
@@ -192,6 +193,10 @@ static double fmiMax(double a, double b) {
 
 bool isClose(double a, double b) {
 
+    if (isinf(a) || isinf(b)) {
+        return false;
+    }
+
     if (fmiAbs(a - b) <= EPSILON) {
         return true;
     }
-- 
2.43.0


From c1b5b4256d864bfa3367e09c171254ba6c70ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:33 +0000
Subject: [PATCH 32/46] fix: log all sizes passed to fmi3GetBinary and
 fmi3SetBinary

---
 src/FMI3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 5874ddb..4ac4771 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -616,7 +616,7 @@ FMIStatus FMI3GetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3GetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValueReferences, NULL, FMISizeTType);
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
         FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
@@ -756,7 +756,7 @@ FMIStatus FMI3SetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3SetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValueReferences, NULL, FMISizeTType);
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
         FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
-- 
2.43.0


From 502c95a8fbdb9237819e27da3f1db5b573e70f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:33 +0000
Subject: [PATCH 33/46] fix: report missing symbols without log callback

---
 src/FMI2.c | 4 ++--
 src/FMI3.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index b73f9fd..f32a4e1 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,7 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +53,7 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index 4ac4771..ae02ca0 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,7 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +45,7 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
-- 
2.43.0


From bef5047b885d556ddd94754c1675d98cc63bab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:33 +0000
Subject: [PATCH 34/46] fix: release the function table when an instance is
 instantiated again

---
 src/FMI2.c | 1 +
 src/FMI3.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/FMI2.c b/src/FMI2.c
index f32a4e1..8688110 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -138,6 +138,7 @@ FMIStatus FMI2Instantiate(FMIInstance *instance, const char *fmuResourceLocation
 
     instance->fmiMajorVersion = FMIMajorVersion2;
 
+    FMIFree((void**)&instance->fmi2Functions);
     instance->fmi2Functions = calloc(1, sizeof(FMI2Functions));
 
     if (!instance->fmi2Functions) {
diff --git a/src/FMI3.c b/src/FMI3.c
index ae02ca0..350449e 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -123,6 +123,7 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
 
 #if !defined(FMI_VERSION) || FMI_VERSION == 3
 
+    FMIFree((void**)&instance->fmi3Functions);
     instance->fmi3Functions = calloc(1, sizeof(FMI3Functions));
 
     if (!instance->fmi3Functions) {
-- 
2.43.0


From 1561181bf4656b8a8c55fcf8888d19d3ef525015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:02 +0000
Subject: [PATCH 35/46] fix: report failed memory requests of FMICreateInstance

---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 501dfb0..ed981af 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -108,6 +108,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->name = strdup(instanceName);
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     instance->status = FMIOK;
 
     return instance;
-- 
2.43.0


From 88d1a171e542b402faf667f0eaaf86e44d91864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:25 +0000
Subject: [PATCH 36/46] fix: do not write past the log buffer after it could
 not be enlarged

---
 src/FMI.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index ed981af..85c2cdc 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -216,6 +216,7 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
         }
 
         if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            instance->logMessageBufferSize = instance->logMessageBufferPosition + 1;  // the part still in use
             return;
         }
 
@@ -329,6 +330,7 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
             }
 
             if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+                instance->logMessageBufferSize = instance->logMessageBufferPosition + 1;  // the part still in use
                 return;
             }
 
-- 
2.43.0


From 184d99c1528106ebaac3d15a4edf0e071929d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:12 +0000
Subject: [PATCH 37/46] fix: forward fmi3ExitConfigurationMode after a restored
 FMU state

FMI3ExitConfigurationMode returned an error without calling the FMU when
Configuration Mode had been entered by restoring a saved FMU state.
---
 src/FMI3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 350449e..8284549 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -901,7 +901,7 @@ FMIStatus FMI3ExitConfigurationMode(FMIInstance *instance) {
 
     } else {
 
-        return FMIError;
+        // a restored FMU state may be in (Re)Configuration Mode: leave the decision to the FMU
 
     }
 
-- 
2.43.0


From 1c330d60687ca2796adefa9c08a754ae0ae6c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:43 +0000
Subject: [PATCH 38/46] fix: declare that output y3 of Roberts depends on the
 states

---
 Roberts/FMI3.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index eebede4..4d6df63 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -47,7 +47,7 @@
   <ModelStructure>
     <Output valueReference="2" dependencies=""/>
     <Output valueReference="4" dependencies=""/>
-    <Output valueReference="6" dependencies=""/>
+    <Output valueReference="6" dependencies="2 4" dependenciesKind="constant constant"/>
     <ContinuousStateDerivative valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <ContinuousStateDerivative valueReference="5" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
-- 
2.43.0


From ae5311c1785d8968168f67417061c61231ea933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:35 +0000
Subject: [PATCH 39/46] fix: declare the internal step size that Roberts uses

---
 Roberts/FMI3.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index 4d6df63..1601b22 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,7 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-3"/>
+    fixedInternalStepSize="1e-6"/>
 
   <LogCategories>
     <Category name="logEvents" description="Log events"/>
-- 
2.43.0


From 2189fd34eac41ecba5aa11b48ad8774d8d6d8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:35 +0000
Subject: [PATCH 40/46] fix: declare the internal step size that StateSpace
 uses

---
 StateSpace/FMI3.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/FMI3.xml b/StateSpace/FMI3.xml
index 8d2e4d9..7533a9b 100644
--- a/StateSpace/FMI3.xml
+++ b/StateSpace/FMI3.xml
@@ -18,7 +18,7 @@
       canHandleVariableCommunicationStepSize="true"
       providesIntermediateUpdate="true"
       canReturnEarlyAfterIntermediateUpdate="true"
-      fixedInternalStepSize="1"
+      fixedInternalStepSize="1e-3"
       hasEventMode="true"/>
 
     <LogCategories>
-- 
2.43.0


From 13e4bf75db328c82b4860c6a15a6e4397307843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:35 +0000
Subject: [PATCH 41/46] fix: declare that Stair may return early from a step

---
 Stair/FMI3.xml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Stair/FMI3.xml b/Stair/FMI3.xml
index d7f6177..084e85e 100644
--- a/Stair/FMI3.xml
+++ b/Stair/FMI3.xml
@@ -17,6 +17,7 @@
     canSerializeFMUState="true"
     canHandleVariableCommunicationStepSize="true"
     providesIntermediateUpdate="true"
+    mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
     fixedInternalStepSize="0.2"
     hasEventMode="true"/>
-- 
2.43.0


From 29b0a14d192dc752e22ccb53e28594236bb65186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:52 +0000
Subject: [PATCH 42/46] fix: log a failed memory request of
 fmi3DeserializeFMUState instead of printing it

---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index b1426a8..063f1a1 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -844,7 +844,7 @@ fmi3Status fmi3DeserializeFMUState(fmi3Instance instance,
     if (*FMUState == NULL) {
         *FMUState = calloc(1, sizeof(ModelInstance));
         if (*FMUState == NULL) {
-            printf("Failed to allocate memory for FMUState.\n");
+            logError(S, "Failed to allocate memory for FMUState.");
             return fmi3Error;
         }
     }
-- 
2.43.0


From 5d05f4e7f8e75e32916d1a35f4ce31ef82e837c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:48:09 +0000
Subject: [PATCH 43/46] fix: name the shipped results of Roberts in its
 manifest

---
 Roberts/fmi-ls-ref.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/fmi-ls-ref.xml b/Roberts/fmi-ls-ref.xml
index 7aa2ad2..a05b6ec 100644
--- a/Roberts/fmi-ls-ref.xml
+++ b/Roberts/fmi-ls-ref.xml
@@ -4,5 +4,5 @@
     xmlns:fmi-ls="http://fmi-standard.org/fmi-ls-manifest"
     fmi-ls:fmi-ls-name="org.fmi-standard.fmi-ls-ref"
     fmi-ls:fmi-ls-version="1.0.0-alpha.1">
-    <Related type="text/csv" source="BouncingBall_out.csv" role="result" description="Output of the default experiment"/>
+    <Related type="text/csv" source="Roberts_out.csv" role="result" description="Output of the default experiment"/>
 </fmiReferences>
-- 
2.43.0


From 20e6a8797d85fd068102c96f8fbd571b1c307b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:08:34 +0000
Subject: [PATCH 44/46] fix: report requests for clocks and intervals of models
 without clocks

---
 src/cosimulation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 00db498..42bc682 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -584,27 +584,27 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
 
 #ifndef ACTIVATE_CLOCK
 Status activateClock(ModelInstance* comp, ValueReference vr) {
-    UNUSED(comp);
     UNUSED(vr);
+    logError(comp, "Setting Clock is not allowed.");
     return Error;
 }
 #endif
 
 #ifndef GET_CLOCK
 Status getClock(ModelInstance* comp, ValueReference vr, bool* value) {
-    UNUSED(comp);
     UNUSED(vr);
     UNUSED(value);
+    logError(comp, "Getting Clock is not allowed.");
     return Error;
 }
 #endif
 
 #ifndef GET_INTERVAL
 Status getInterval(ModelInstance* comp, ValueReference vr, double* interval, int* qualifier) {
-    UNUSED(comp);
     UNUSED(vr);
     UNUSED(interval);
     UNUSED(qualifier);
+    logError(comp, "Getting Interval is not allowed.");
     return Error;
 }
 #endif
-- 
2.43.0


From 03505c4391e138fac4926bea558574dbce5e8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:08:34 +0000
Subject: [PATCH 45/46] fix: reject missing arrays in fmi3GetClock,
 fmi3SetClock and fmi3GetIntervalDecimal

---
 src/fmi3Functions.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 063f1a1..dbf0508 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -602,6 +602,10 @@ fmi3Status fmi3GetClock(fmi3Instance instance,
     fmi3Clock values[]) {
     BEGIN_FUNCTION(GetClock);
 
+    if (nValueReferences == 0) goto TERMINATE;
+    ASSERT_NOT_NULL(valueReferences);
+    ASSERT_NOT_NULL(values);
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getClock(instance, (ValueReference)valueReferences[i], &values[i]));
     }
@@ -744,6 +748,10 @@ fmi3Status fmi3SetClock(fmi3Instance instance,
     const fmi3Clock values[]) {
     BEGIN_FUNCTION(SetClock);
 
+    if (nValueReferences == 0) goto TERMINATE;
+    ASSERT_NOT_NULL(valueReferences);
+    ASSERT_NOT_NULL(values);
+
     for (size_t i = 0; i < nValueReferences; i++) {
         if (values[i]) {
             CALL(activateClock(instance, (ValueReference)valueReferences[i]));
@@ -958,6 +966,11 @@ fmi3Status fmi3GetIntervalDecimal(fmi3Instance instance,
 
     BEGIN_FUNCTION(GetIntervalDecimal);
 
+    if (nValueReferences == 0) goto TERMINATE;
+    ASSERT_NOT_NULL(valueReferences);
+    ASSERT_NOT_NULL(intervals);
+    ASSERT_NOT_NULL(qualifiers);
+
     // TODO: Check nValueReferences != nValues ?
 
     for (size_t i = 0; i < nValueReferences; i++) {
-- 
2.43.0


From 6c4e300f08c263b0f71e3849ac042f80b30c1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:08:34 +0000
Subject: [PATCH 46/46] fix: reject references to other variables in
 fmi3SetClock of Clocks

---
 Clocks/model.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index a0f555f..fc4ad35 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -150,10 +150,15 @@ Status eventUpdate(ModelInstance *comp) {
 
 Status activateClock(ModelInstance* comp, ValueReference vr) {
 
-    UNUSED(comp);
-    UNUSED(vr);
-
-    return OK;
+    switch (vr) {
+    case vr_inClock1:
+    case vr_inClock2:
+    case vr_inClock3:
+        return OK;
+    default:
+        logError(comp, "Set Clock is not allowed for value reference %u.", vr);
+        return Error;
+    }
 }
 
 Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_t nValues, size_t* index) {
-- 
2.43.0

