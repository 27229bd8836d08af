From 365de188206887ae1817f5bb912d09857c9c271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 01/49] fix: keep the host's allocator context pointer after VM
 creation

nkxVmCreateEx() passed mallocAndFreeReplacementUserData to the first
allocation only; every later mallocReplacement/freeReplacement call got NULL.
---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..3c9dd4c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From 4d41a002da73c0ae9e7a5996c798cf634a6f79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 02/49] fix: release blocks through the host's allocator after
 a catastrophic failure

nkiVmDestroy() used the C library's free() on blocks obtained from
mallocReplacement.
---
 src/nkvm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..ef5651b 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -290,7 +290,9 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations,
+                vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
-- 
2.43.0


From 57994c22460c08432f52829a2e1354214d16304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 03/49] fix: make integer arithmetic wrap instead of
 overflowing

Signed overflow in the arithmetic opcodes, in the constant folder, and
the conversion of an out-of-range float to an integer were all
undefined behavior.
---
 src/nkopcode.c | 14 +++++++-------
 src/nkopt.c    | 16 +++++++++-------
 src/nkvalue.c  | 10 +++++++++-
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..3f5c30a 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -56,8 +56,8 @@ void nkiOpcode_add(struct NKVM *vm)
 
             nkiVmStackPushInt(
                 vm,
-                in1->intData +
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData +
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -164,8 +164,8 @@ void nkiOpcode_subtract(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData -
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData -
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -200,8 +200,8 @@ void nkiOpcode_multiply(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData *
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData *
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -325,7 +325,7 @@ void nkiOpcode_negate(struct NKVM *vm)
         case NK_VALUETYPE_INT: {
             nkiVmStackPushInt(
                 vm,
-                -(in1->intData));
+                (nkint32_t)(0 - (nkuint32_t)in1->intData));
         } break;
 
         case NK_VALUETYPE_FLOAT: {
diff --git a/src/nkopt.c b/src/nkopt.c
index 8507c0e..1d5b538 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,28 +85,30 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
-#define NK_APPLY_MATH()                                                 \
+// mathType is the type to do the math in. Integer math must use an
+// unsigned type, so that it wraps around.
+#define NK_APPLY_MATH(mathType)                                         \
     do {                                                                \
         switch((*node)->opOrValue->type) {                              \
                                                                         \
             case NK_TOKENTYPE_PLUS:                                     \
                 /* Addition. */                                         \
-                val = c0Val + c1Val;                                    \
+                val = (mathType)c0Val + (mathType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MINUS:                                    \
                 if(!(*node)->children[1]) {                             \
                     /* Unary negation. */                               \
-                    val = -c0Val;                                       \
+                    val = -(mathType)c0Val;                             \
                 } else {                                                \
                     /* Subtraction. */                                  \
-                    val = c0Val - c1Val;                                \
+                    val = (mathType)c0Val - (mathType)c1Val;            \
                 }                                                       \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MULTIPLY:                                 \
                 /* Multiplication. */                                   \
-                val = c0Val * c1Val;                                    \
+                val = (mathType)c0Val * (mathType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_DIVIDE:                                   \
@@ -188,7 +190,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_INTCHARSNEED];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(nkuint32_t);
 
                     // TODO: Use sprintf_s on non-DOS systems.
 
@@ -211,7 +213,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(float);
 
                     // We aren't using sprintf_s here for DOS
                     // compatibility.
diff --git a/src/nkvalue.c b/src/nkvalue.c
index ea887c0..fd74441 100644
--- a/src/nkvalue.c
+++ b/src/nkvalue.c
@@ -102,7 +102,15 @@ nkint32_t nkiValueToInt(struct NKVM *vm, struct NKValue *value)
             return value->intData;
 
         case NK_VALUETYPE_FLOAT:
-            return (int)value->floatData;
+            // Converting a float that does not fit is undefined
+            // behavior. Everything out of range (and NaN) turns into
+            // the lowest integer.
+            if(value->floatData >= -2147483648.0f &&
+                value->floatData < 2147483648.0f)
+            {
+                return (nkint32_t)value->floatData;
+            }
+            return -2147483647L - 1;
 
         case NK_VALUETYPE_STRING:
         {
-- 
2.43.0


From e36158ee9ac576eff422f3df8c6b7653a320ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 04/49] fix: constant folding gives the same values as run-time
 arithmetic

Folded floats lost everything past six decimals, and mixed operands
were not converted the way the opcodes convert them.
---
 src/nkopt.c | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/nkopt.c b/src/nkopt.c
index 1d5b538..2a8bcec 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,6 +85,41 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
+// Set a value from an immediate value node, in the same way that the
+// compiler would if it had to emit the literal. NULL nodes turn into
+// zero.
+static void nkiCompilerImmediateToValue(
+    struct NKExpressionAstNode *node,
+    struct NKValue *value)
+{
+    nkiMemset(value, 0, sizeof(*value));
+    value->type = NK_VALUETYPE_INT;
+    if(node && node->opOrValue->type == NK_TOKENTYPE_FLOAT) {
+        value->type = NK_VALUETYPE_FLOAT;
+        value->floatData = atof(node->opOrValue->str);
+    } else if(node) {
+        value->intData = atol(node->opOrValue->str);
+    }
+}
+
+static nkint32_t nkiCompilerImmediateToInt(
+    struct NKVM *vm,
+    struct NKExpressionAstNode *node)
+{
+    struct NKValue value;
+    nkiCompilerImmediateToValue(node, &value);
+    return nkiValueToInt(vm, &value);
+}
+
+static float nkiCompilerImmediateToFloat(
+    struct NKVM *vm,
+    struct NKExpressionAstNode *node)
+{
+    struct NKValue value;
+    nkiCompilerImmediateToValue(node, &value);
+    return nkiValueToFloat(vm, &value);
+}
+
 // mathType is the type to do the math in. Integer math must use an
 // unsigned type, so that it wraps around.
 #define NK_APPLY_MATH(mathType)                                         \
@@ -181,8 +216,8 @@ void nkiCompilerOptimizeConstants(
                 case NK_TOKENTYPE_INTEGER: {
 
                     // Fetch original values.
-                    nkint32_t c0Val = (*node)->children[0] ? atol((*node)->children[0]->opOrValue->str) : 0;
-                    nkint32_t c1Val = (*node)->children[1] ? atol((*node)->children[1]->opOrValue->str) : 0;
+                    nkint32_t c0Val = nkiCompilerImmediateToInt(vm, (*node)->children[0]);
+                    nkint32_t c1Val = nkiCompilerImmediateToInt(vm, (*node)->children[1]);
                     nkint32_t val = 0;
 
                     // Using the same size we use for the floating
@@ -207,8 +242,8 @@ void nkiCompilerOptimizeConstants(
                 case NK_TOKENTYPE_FLOAT: {
 
                     // Fetch original values.
-                    float c0Val = (*node)->children[0] ? atof((*node)->children[0]->opOrValue->str) : 0;
-                    float c1Val = (*node)->children[1] ? atof((*node)->children[1]->opOrValue->str) : 0;
+                    float c0Val = nkiCompilerImmediateToFloat(vm, (*node)->children[0]);
+                    float c1Val = nkiCompilerImmediateToFloat(vm, (*node)->children[1]);
                     float val = 0;
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
@@ -222,7 +257,9 @@ void nkiCompilerOptimizeConstants(
                     // non-DOS systems.
 
                     // Set the string for the result.
-                    sprintf(tmp, "%f", val);
+                    // Nine significant digits are enough for any
+                    // float to survive the conversion back.
+                    sprintf(tmp, "%.9g", val);
                     newNode->opOrValue->str = nkiStrdup(vm, tmp);
 
                     // Replace the original node.
-- 
2.43.0


From fed5521558b7fd861b6dc98c2fbdd4e9b9810f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 05/49] fix: logical and/or looked only at the low byte of
 their operands

---
 src/nkopcode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 3f5c30a..3153534 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -966,8 +966,8 @@ void nkiOpcode_and(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 && in2);
 }
 
@@ -975,8 +975,8 @@ void nkiOpcode_or(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 || in2);
 }
 
-- 
2.43.0


From 24142e0d4a5018d18928ea0a027d979b3a556898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 06/49] fix: unbalanced recursion counter limited the number of
 statements

var and return statements never gave back their recursion level, so a
script with a few hundred of them was rejected.
---
 src/nkcompil.c | 22 ++++++++++++++++++++--
 src/nkexpr.c   |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 78d3843..17eba91 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -417,6 +417,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
     if(nkiCompilerCurrentTokenType(cs) == NK_TOKENTYPE_INVALID) {
         nkiCompilerAddError(cs, "Ran out of tokens to parse.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -424,15 +425,24 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
         case NK_TOKENTYPE_VAR:
             // "var" = Variable declaration.
-            return nkiCompilerCompileVariableDeclaration(cs);
+            if(!nkiCompilerCompileVariableDeclaration(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_RETURN:
             // "return" = Return statement.
-            return nkiCompilerCompileReturnStatement(cs);
+            if(!nkiCompilerCompileReturnStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_CURLYBRACE_OPEN:
             // Curly braces mean we need to parse a block.
             if(!nkiCompilerCompileBlock(cs, nkfalse)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -440,6 +450,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_IF:
             // "if" statements.
             if(!nkiCompilerCompileIfStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -447,6 +458,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_WHILE:
             // "while" statements.
             if(!nkiCompilerCompileWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -454,6 +466,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_DO:
             // "do/while" statements.
             if(!nkiCompilerCompileDoWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -461,6 +474,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_FOR:
             // "for" statements.
             if(!nkiCompilerCompileForStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -468,6 +482,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_BREAK:
             // "break" statements.
             if(!nkiCompilerCompileBreakStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -478,6 +493,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
             struct NKToken *nextToken = nkiCompilerPeekToken(cs);
             if(nextToken && nextToken->type == NK_TOKENTYPE_IDENTIFIER) {
                 if(!nkiCompilerCompileFunctionDefinition(cs, nkfalse, NULL)) {
+                    nkiCompilerPopRecursion(cs);
                     return nkfalse;
                 }
                 break;
@@ -488,6 +504,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         default:
             // Fall back to just parsing an expression.
             if(!nkiCompilerCompileExpression(cs, nktrue)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
@@ -575,6 +592,7 @@ nkbool nkiCompilerCompileBlock(struct NKCompilerState *cs, nkbool noBracesOrCont
         noBracesOrContext)
     {
         nkiCompilerAddError(cs, "Extra closing curly brace.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c605a1..95acae6 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -869,6 +869,7 @@ nkbool nkiCompilerEmitExpression(struct NKCompilerState *cs, struct NKExpression
     }
 
     if(!node) {
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -1012,6 +1013,7 @@ nkbool nkiCompilerEmitExpression(struct NKCompilerState *cs, struct NKExpression
             } else {
 
                 nkiCompilerAddError(cs, "Corrupted AST in FSE creation.");
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
-- 
2.43.0


From 9394e6d520a46ccbc84f311b634dc422900b3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 07/49] fix: is_finished() leaves the stack at the depth it
 found it

The compiler thought it grew the stack by one, and addressed the wrong
local variables after it.
---
 src/nkvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index ef5651b..4d031eb 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -127,7 +127,7 @@ static void nkiVmInitOpcodeTable(void)
     NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
     NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
     NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    1);
+    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
 
     NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-- 
2.43.0


From ba22a90b547372f8112f827576abb3d25973ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 08/49] fix: reject coroutine() without a function

The argument count underflowed.
---
 src/nkfse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nkfse.c b/src/nkfse.c
index 6cb8580..6f8afd1 100644
--- a/src/nkfse.c
+++ b/src/nkfse.c
@@ -63,12 +63,16 @@ static nkbool nkiCompilerFSE_coroutineCreate(
     struct NKCompilerState *cs,
     nkuint32_t argumentCount)
 {
+    if(argumentCount < 1) {
+        nkiCompilerAddError(cs, "Too few arguments to coroutine().");
+        return nkfalse;
+    }
+
     // // Pop all args off.
     // nkiCompilerEmitPushLiteralInt(cs, argumentCount, nkfalse);
     // nkiCompilerAddInstructionSimple(cs, NK_OP_POPN, nkfalse);
     cs->context->stackFrameOffset -= argumentCount;
 
-    // FIXME: Check underflow.
     nkiCompilerEmitPushLiteralInt(cs, argumentCount - 1, nkfalse);
 
     nkiCompilerAddInstructionSimple(cs, NK_OP_COROUTINE_CREATE, nktrue);
-- 
2.43.0


From 38944461aae9dfd5c726e0692d6f186d816894c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 09/49] fix: position markers for the first line of a script
 and for loop increments

No marker was made for the first token of a script, so errors on its
line were attributed to whatever was compiled before. Code for the
increment of a for loop is emitted after the loop body, and took the
line of the token after it.
---
 src/nkcompil.c | 85 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 17eba91..fa7ff5f 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -920,36 +920,51 @@ nkbool nkiCompilerCompileFunctionDefinition(
     return ret;
 }
 
-struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
+// Add a marker to the position marker list for code emitted from here
+// on, at the position of the current token.
+static void nkiCompilerAddPositionMarker(struct NKCompilerState *cs)
 {
+    struct NKVMFilePositionMarker newMarker;
+
+    cs->currentLineNumber = cs->currentToken->lineNumber;
+    cs->currentFileIndex = cs->currentToken->fileIndex;
+    cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
+
+    newMarker.fileIndex = cs->currentToken->fileIndex;
+    newMarker.lineNumber = cs->currentToken->lineNumber;
+    newMarker.instructionIndex = cs->instructionWriteIndex;
+    newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
+
+    cs->vm->positionMarkerList =
+        (struct NKVMFilePositionMarker*)nkiReallocArray(
+            cs->vm, cs->vm->positionMarkerList,
+            sizeof(struct NKVMFilePositionMarker),
+            cs->vm->positionMarkerCount + 1);
+
+    cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+}
+
+// Switch to some other token, adding a position marker if it's on a
+// different line.
+static void nkiCompilerSetCurrentToken(
+    struct NKCompilerState *cs,
+    struct NKToken *token)
+{
+    cs->currentToken = token;
     if(cs->currentToken) {
-        cs->currentToken = cs->currentToken->next;
-        if(cs->currentToken) {
-
-            if((nkint32_t)cs->currentLineNumber != cs->currentToken->lineNumber ||
-                cs->currentFileIndex != cs->currentToken->fileIndex)
-            {
-                struct NKVMFilePositionMarker newMarker;
-
-                cs->currentLineNumber = cs->currentToken->lineNumber;
-                cs->currentFileIndex = cs->currentToken->fileIndex;
-                cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
-
-                newMarker.fileIndex = cs->currentToken->fileIndex;
-                newMarker.lineNumber = cs->currentToken->lineNumber;
-                newMarker.instructionIndex = cs->instructionWriteIndex;
-                newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
-
-                cs->vm->positionMarkerList =
-                    (struct NKVMFilePositionMarker*)nkiReallocArray(
-                        cs->vm, cs->vm->positionMarkerList,
-                        sizeof(struct NKVMFilePositionMarker),
-                        cs->vm->positionMarkerCount + 1);
-
-                cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
-            }
+        if((nkint32_t)cs->currentLineNumber != cs->currentToken->lineNumber ||
+            cs->currentFileIndex != cs->currentToken->fileIndex)
+        {
+            nkiCompilerAddPositionMarker(cs);
         }
     }
+}
+
+struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
+{
+    if(cs->currentToken) {
+        nkiCompilerSetCurrentToken(cs, cs->currentToken->next);
+    }
     return cs->currentToken;
 }
 
@@ -1216,10 +1231,11 @@ nkbool nkiCompilerCompileScript(
     // Compile.
 
     cs->currentToken = tokenList.first;
-    cs->currentLineNumber =
-        cs->currentToken ? cs->currentToken->lineNumber : 0;
-    cs->currentFileIndex =
-        cs->currentToken ? cs->currentToken->fileIndex : NK_INVALID_VALUE;
+    cs->currentLineNumber = 0;
+    cs->currentFileIndex = NK_INVALID_VALUE;
+    if(cs->currentToken) {
+        nkiCompilerAddPositionMarker(cs);
+    }
 
     success = nkiCompilerCompileBlock(cs, nktrue);
 
@@ -1503,6 +1519,8 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     nkuint32_t skipAddressWritePtr = 0;
     nkuint32_t loopStartAddress = 0;
     struct NKExpressionAstNode *incrementExpression = NULL;
+    struct NKToken *incrementToken = NULL;
+    struct NKToken *tokenAfterLoop = NULL;
 
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
@@ -1558,6 +1576,7 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     // Parse the increment expression, but don't emit yet (we'll do
     // this at the end, before the jump back).
     incrementExpression = nkiCompilerCompileExpressionWithoutEmit(cs, nktrue);
+    incrementToken = cs->currentToken;
 
     // Skip ")"
     if(!incrementExpression || !nkiCompilerExpectAndSkipToken(cs, NK_TOKENTYPE_PAREN_CLOSE)) {
@@ -1577,7 +1596,10 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerPopContext(cs);
 
-    // Emit the increment expression.
+    // Emit the increment expression. Errors in it belong to the line
+    // it was on, and not to whatever comes after the loop body.
+    tokenAfterLoop = cs->currentToken;
+    nkiCompilerSetCurrentToken(cs, incrementToken);
     if(!nkiCompilerEmitExpression(cs, incrementExpression)) {
         nkiCompilerDeleteExpressionNode(cs->vm, incrementExpression);
         nkiCompilerPopContextCount(cs, 2);
@@ -1585,6 +1607,7 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
         return nkfalse;
     }
     nkiCompilerAddInstructionSimple(cs, NK_OP_POP, nktrue);
+    nkiCompilerSetCurrentToken(cs, tokenAfterLoop);
 
     // Emit jump back to start.
     nkiCompilerEmitJump(cs, loopStartAddress);
-- 
2.43.0


From 6d9056c9de647e5d4d369314d18f3dc0531d966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 10/49] fix: shrinking keeps every reference to the objects and
 strings it moves

---
 src/nkgc.c     |  37 +++++++++-
 src/nkshrink.c | 187 +++++++++++++++++++++++++++----------------------
 src/nkvm.h     |   5 ++
 3 files changed, 146 insertions(+), 83 deletions(-)

diff --git a/src/nkgc.c b/src/nkgc.c
index 8ffbef8..c82c7e8 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -57,6 +57,9 @@ struct NKVMGCState
     nkuint32_t currentGCPass;
     struct NKVMValueGCEntry *openList;
     struct NKVMValueGCEntry *closedList; // We'll keep this just for re-using allocations.
+
+    // If set, mark objects without following their references.
+    nkbool shallow;
 };
 
 struct NKVMValueGCEntry *nkiVmGcStateMakeEntry(struct NKVMGCState *state)
@@ -102,7 +105,9 @@ void nkiVmGarbageCollect_addObject(
         value->objectId);
 
     if(ob) {
-        if(ob->lastGCPass != gcState->currentGCPass) {
+        if(gcState->shallow) {
+            ob->lastGCPass = gcState->currentGCPass;
+        } else if(ob->lastGCPass != gcState->currentGCPass) {
             struct NKVMValueGCEntry *newEntry = nkiVmGcStateMakeEntry(gcState);
             newEntry->object = ob;
         }
@@ -215,6 +220,36 @@ void nkiVmGarbageCollect_markStack(
     }
 }
 
+nkuint32_t nkiVmGarbageCollect_markExternalReferences(struct NKVM *vm)
+{
+    nkuint32_t i;
+    struct NKVMGCState gcState;
+    nkiMemset(&gcState, 0, sizeof(gcState));
+    gcState.currentGCPass = ++vm->gcInfo.lastGCPass;
+    gcState.vm = vm;
+    gcState.shallow = nktrue;
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob && ob->externalDataType.id < vm->externalTypeCount &&
+            ob->externalDataType.id != vm->internalObjectTypes.coroutine.id)
+        {
+            NKVMExternalObjectGCMarkCallback callback =
+                vm->externalTypes[ob->externalDataType.id].gcMarkCallback;
+
+            if(callback) {
+                struct NKValue val;
+                nkiMemset(&val, 0, sizeof(val));
+                val.type = NK_VALUETYPE_OBJECTID;
+                val.objectId = ob->objectTableIndex;
+                callback(vm, &val, ob->externalData, &gcState);
+            }
+        }
+    }
+
+    return gcState.currentGCPass;
+}
+
 void nkiVmGarbageCollect(struct NKVM *vm)
 {
     struct NKVMGCState gcState;
diff --git a/src/nkshrink.c b/src/nkshrink.c
index 53d6e84..463cdd6 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -43,63 +43,110 @@
 
 #include "nkcommon.h"
 
-void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
+// Change a single value if it refers to the thing in oldSlot. Returns
+// nktrue if it was changed.
+nkbool nkiVmShrinkRewriteValue(
+    struct NKValue *value, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
 {
-    assert(vm->objectTable.capacity > newSlot);
-    assert(vm->objectTable.capacity > oldSlot);
-    assert(!vm->objectTable.objectTable[newSlot]);
-    assert(vm->objectTable.objectTable[oldSlot]);
+    if(value->type == type && value->basicHashValue == oldSlot) {
+        value->basicHashValue = newSlot;
+        return nktrue;
+    }
+    return nkfalse;
+}
 
-    vm->objectTable.objectTable[oldSlot]->objectTableIndex = newSlot;
-    vm->objectTable.objectTable[newSlot] = vm->objectTable.objectTable[oldSlot];
-    vm->objectTable.objectTable[oldSlot] = NULL;
+void nkiVmShrinkRewriteStack(
+    struct NKVMStack *stack, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+    for(i = 0; i < stack->size; i++) {
+        nkiVmShrinkRewriteValue(&stack->values[i], type, oldSlot, newSlot);
+    }
+}
+
+// Rewrite every reference to a moved object or string. This must be
+// called after the table entry itself has been moved.
+void nkiVmShrinkRewriteReferences(
+    struct NKVM *vm, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
 
-    {
-        nkuint32_t i;
+    // Rewrite all root stack references. (The stacks of coroutines
+    // are handled with the coroutine objects below.)
+    nkiVmShrinkRewriteStack(
+        &vm->rootExecutionContext.stack, type, oldSlot, newSlot);
 
-        // Rewrite all stack references.
-        for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-            if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->currentExecutionContext->stack.values[i].objectId == oldSlot) {
-                    vm->currentExecutionContext->stack.values[i].objectId = newSlot;
+    // Rewrite all static references.
+    for(i = 0; i <= vm->staticAddressMask; i++) {
+        nkiVmShrinkRewriteValue(&vm->staticSpace[i], type, oldSlot, newSlot);
+    }
+
+    // Rewrite all object references in any keys or values.
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob) {
+
+            struct NKVMObjectElement *rehashed = NULL;
+            nkuint32_t k;
+
+            for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
+                struct NKVMObjectElement **el = &ob->hashBuckets[k];
+                while(*el) {
+                    nkiVmShrinkRewriteValue(
+                        &(*el)->value, type, oldSlot, newSlot);
+                    if(nkiVmShrinkRewriteValue(
+                            &(*el)->key, type, oldSlot, newSlot))
+                    {
+                        // The hash of the key depends on the slot, so
+                        // this has to go into a different bucket.
+                        rehashed = *el;
+                        *el = rehashed->next;
+                    } else {
+                        el = &(*el)->next;
+                    }
                 }
             }
-        }
 
-        // Rewrite all static references.
-        for(i = 0; i <= vm->staticAddressMask; i++) {
-            if(vm->staticSpace[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->staticSpace[i].objectId == oldSlot) {
-                    vm->staticSpace[i].objectId = newSlot;
-                }
+            if(rehashed) {
+                struct NKVMObjectElement **bucket =
+                    &ob->hashBuckets[
+                        nkiValueHash(vm, &rehashed->key) &
+                        (nkiVMObjectHashBucketCount - 1)];
+                rehashed->next = *bucket;
+                *bucket = rehashed;
             }
-        }
 
-        // Rewrite all object references in any keys or values.
-        for(i = 0; i < vm->objectTable.capacity; i++) {
-            struct NKVMObject *ob = vm->objectTable.objectTable[i];
-            if(ob) {
-                nkuint32_t k;
-                for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                    struct NKVMObjectElement *el;
-                    for(el = ob->hashBuckets[k]; el; el = el->next) {
-                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
-                            el->key.objectId = newSlot;
-                        }
-                        if(el->value.type == NK_VALUETYPE_OBJECTID && el->value.objectId == oldSlot) {
-                            el->value.objectId = newSlot;
-                        }
-                    }
-                }
+            if(ob->externalData && ob->externalDataType.id ==
+                vm->internalObjectTypes.coroutine.id)
+            {
+                nkiVmShrinkRewriteStack(
+                    &((struct NKVMExecutionContext *)ob->externalData)->stack,
+                    type, oldSlot, newSlot);
             }
         }
     }
 }
 
-void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
+void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
 {
-    nkuint32_t i;
+    assert(vm->objectTable.capacity > newSlot);
+    assert(vm->objectTable.capacity > oldSlot);
+    assert(!vm->objectTable.objectTable[newSlot]);
+    assert(vm->objectTable.objectTable[oldSlot]);
+
+    vm->objectTable.objectTable[oldSlot]->objectTableIndex = newSlot;
+    vm->objectTable.objectTable[newSlot] = vm->objectTable.objectTable[oldSlot];
+    vm->objectTable.objectTable[oldSlot] = NULL;
+
+    nkiVmShrinkRewriteReferences(
+        vm, NK_VALUETYPE_OBJECTID, oldSlot, newSlot);
+}
 
+void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
+{
     assert(vm->stringTable.capacity > newSlot);
     assert(vm->stringTable.capacity > oldSlot);
     assert(!vm->stringTable.stringTable[newSlot]);
@@ -110,42 +157,8 @@ void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
     vm->stringTable.stringTable[newSlot] = vm->stringTable.stringTable[oldSlot];
     vm->stringTable.stringTable[oldSlot] = NULL;
 
-    // Rewrite all stack references.
-    for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-        if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_STRING) {
-            if(vm->currentExecutionContext->stack.values[i].stringTableEntry == oldSlot) {
-                vm->currentExecutionContext->stack.values[i].stringTableEntry = newSlot;
-            }
-        }
-    }
-
-    // Rewrite all static references.
-    for(i = 0; i <= vm->staticAddressMask; i++) {
-        if(vm->staticSpace[i].type == NK_VALUETYPE_STRING) {
-            if(vm->staticSpace[i].stringTableEntry == oldSlot) {
-                vm->staticSpace[i].stringTableEntry = newSlot;
-            }
-        }
-    }
-
-    // Rewrite all object references in any keys or values.
-    for(i = 0; i < vm->objectTable.capacity; i++) {
-        struct NKVMObject *ob = vm->objectTable.objectTable[i];
-        if(ob) {
-            nkuint32_t k;
-            for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                struct NKVMObjectElement *el;
-                for(el = ob->hashBuckets[k]; el; el = el->next) {
-                    if(el->key.type == NK_VALUETYPE_STRING && el->key.stringTableEntry == oldSlot) {
-                        el->key.stringTableEntry = newSlot;
-                    }
-                    if(el->value.type == NK_VALUETYPE_STRING && el->value.stringTableEntry == oldSlot) {
-                        el->value.stringTableEntry = newSlot;
-                    }
-                }
-            }
-        }
-    }
+    nkiVmShrinkRewriteReferences(
+        vm, NK_VALUETYPE_STRING, oldSlot, newSlot);
 }
 
 void nkiVmShrinkStack(
@@ -180,6 +193,7 @@ void nkiVmShrink(struct NKVM *vm)
     nkuint32_t emptyHoleSearch = 0;
     nkuint32_t objectSearch = 0;
     nkuint32_t i;
+    nkuint32_t pinnedPass;
 
     // VMs with errors may be in an unpredictable or inconsistent
     // state. Bail out here, just in case.
@@ -187,9 +201,13 @@ void nkiVmShrink(struct NKVM *vm)
         return;
     }
 
-    // FIXME: I don't think we can actually do the following code
-    // reliably. Moving objects around in the object table will mess
-    // up references to those objects!
+    // We can rewrite references in the VM's own data, but not the ones
+    // inside of external data. Find out which objects and strings are
+    // referenced from there, so we can leave them where they are.
+    pinnedPass = nkiVmGarbageCollect_markExternalReferences(vm);
+    if(nkiVmHasErrors(vm)) {
+        return;
+    }
 
     while(emptyHoleSearch < vm->objectTable.capacity) {
         if(!vm->objectTable.objectTable[emptyHoleSearch]) {
@@ -213,6 +231,7 @@ void nkiVmShrink(struct NKVM *vm)
                     // object IDs after the fact.
 
                     if(!vm->objectTable.objectTable[objectSearch]->externalHandleCount &&
+                        vm->objectTable.objectTable[objectSearch]->lastGCPass != pinnedPass &&
                         vm->objectTable.objectTable[objectSearch]->externalDataType.id !=
                         vm->internalObjectTypes.coroutine.id)
                     {
@@ -242,7 +261,9 @@ void nkiVmShrink(struct NKVM *vm)
             // Find a string to move into this slot.
             while(objectSearch < vm->stringTable.capacity) {
                 if(vm->stringTable.stringTable[objectSearch]) {
-                    if(!vm->stringTable.stringTable[objectSearch]->dontGC) {
+                    if(!vm->stringTable.stringTable[objectSearch]->dontGC &&
+                        vm->stringTable.stringTable[objectSearch]->lastGCPass != pinnedPass)
+                    {
                         // Found something for this hole!
                         nkiVmMoveString(vm, objectSearch, emptyHoleSearch);
                         break;
@@ -269,7 +290,9 @@ void nkiVmShrink(struct NKVM *vm)
         {
             struct NKVMExecutionContext *context =
                 (struct NKVMExecutionContext *)ob->externalData;
-            nkiVmShrinkStack(vm, &context->stack);
+            if(context) {
+                nkiVmShrinkStack(vm, &context->stack);
+            }
         }
     }
 }
diff --git a/src/nkvm.h b/src/nkvm.h
index efaad10..4d7f7b2 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -328,6 +328,11 @@ void nkiVmIterate(struct NKVM *vm);
 /// Force a garbage collection pass.
 void nkiVmGarbageCollect(struct NKVM *vm);
 
+/// Mark everything referred to directly from external data, without
+/// following any references. Returns the number of the GC pass that
+/// marked objects and strings will have.
+nkuint32_t nkiVmGarbageCollect_markExternalReferences(struct NKVM *vm);
+
 /// Call a function inside the VM. This does not do any kind of
 /// iteration control, and will simply keep iterating until the
 /// instruction pointer points to the end of addressable program
-- 
2.43.0


From 06ea18ec8a458b771a7fdf191dd18ffa6be7225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 11/49] fix: report saves and loads whose serialization
 callbacks hit a failing stream

nkxSerializeData returned the failure only to the callback, so a stream
failing once inside one went unreported by nkxVmSerialize. A failed save
of a coroutine left an error behind in the saved VM. nkxSerializeData
outside of serialization added an error without failure recovery.
---
 src/nkcorout.c |  7 ++++++-
 src/nksave.c   | 16 ++++++++++++++--
 src/nkvm.h     |  4 ++++
 src/nkx.c      | 23 ++++++++++++++++++-----
 4 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/nkcorout.c b/src/nkcorout.c
index 4377e5b..1c122dc 100644
--- a/src/nkcorout.c
+++ b/src/nkcorout.c
@@ -124,7 +124,12 @@ void nkiCoroutineLibrary_coroutineSerializeData(
                 vm->serializationState.userdata,
                 vm->serializationState.writeMode))
         {
-            nkiAddError(vm, "Coroutine serialization failed.");
+            // A failed save must not affect the VM being saved, so
+            // only errors from loading go into the error list.
+            if(!vm->serializationState.writeMode) {
+                nkiAddError(vm, "Coroutine serialization failed.");
+            }
+            vm->serializationState.failed = nktrue;
         }
     } else {
         nkiAddError(vm, "Coroutine serialization failed.");
diff --git a/src/nksave.c b/src/nksave.c
index 4fa3d9c..a8db12e 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -196,20 +196,32 @@ nkbool nkiSerializeErrorState(
     NKVMSerializationWriter oldWriter = vm->serializationState.writer;  \
     void *oldUserdata = vm->serializationState.userdata;                \
     nkbool oldWriteMode = vm->serializationState.writeMode;             \
+    nkbool oldFailed = vm->serializationState.failed;                   \
+    nkbool callbackFailed = nkfalse;                                    \
     vm->serializationState.writer = writer;                             \
     vm->serializationState.userdata = userdata;                         \
-    vm->serializationState.writeMode = writeMode;
+    vm->serializationState.writeMode = writeMode;                       \
+    vm->serializationState.failed = nkfalse;
 
 #define NKI_SERIALIZE_POPSERIALIZERSTATE()              \
+    callbackFailed = vm->serializationState.failed ||   \
+        vm->errorState.allocationFailure;               \
     vm->serializationState.userdata = oldUserdata;      \
     vm->serializationState.writer = oldWriter;          \
-    vm->serializationState.writeMode = oldWriteMode;
+    vm->serializationState.writeMode = oldWriteMode;    \
+    vm->serializationState.failed = oldFailed;
 
+// If any data inside the callback couldn't be read or written, then
+// the whole serialization has failed, regardless of whether or not
+// the callback paid attention to that.
 #define NKI_SERIALIZE_WRAPCALLBACK(x)           \
     do {                                        \
         NKI_SERIALIZE_PUSHSERIALIZERSTATE();    \
         x;                                      \
         NKI_SERIALIZE_POPSERIALIZERSTATE();     \
+        if(callbackFailed) {                    \
+            return nkfalse;                     \
+        }                                       \
     } while(0)
 
 nkbool nkiSerializeObject(
diff --git a/src/nkvm.h b/src/nkvm.h
index 4d7f7b2..c26e069 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -256,6 +256,10 @@ struct NKVM
         NKVMSerializationWriter writer;
         void *userdata;
         nkbool writeMode;
+
+        // Set when a read or write made by a serialization callback
+        // fails.
+        nkbool failed;
     } serializationState;
 
     nkuint32_t instructionsLeftBeforeTimeout;
diff --git a/src/nkx.c b/src/nkx.c
index 3c9dd4c..45ec68b 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -976,15 +976,28 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
+    nkbool ret = nkfalse;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(nkfalse);
+
     if(!vm->serializationState.writer) {
+
         nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
-        return nkfalse;
+
+    } else {
+
+        ret = vm->serializationState.writer(
+            data, size,
+            vm->serializationState.userdata,
+            vm->serializationState.writeMode);
+
+        if(!ret) {
+            vm->serializationState.failed = nktrue;
+        }
     }
 
-    return vm->serializationState.writer(
-        data, size,
-        vm->serializationState.userdata,
-        vm->serializationState.writeMode);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 nkbool nkxInitSubsystem(
-- 
2.43.0


From ab3b884f652faf88a89bf83c0e5edfe6016b1bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 12/49] fix: release everything when memory runs out while a
 machine is deleted

The final collection in nkiVmDestroy can allocate. When that failed, the
function returned without giving anything back and without running the
remaining clean-up callbacks.
---
 src/nkobjs.c |  2 +-
 src/nkvm.c   | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..36fa203 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -156,7 +156,7 @@ void nkiVmObjectTableCleanupObject(
                     ob->externalData = NULL;
                 }
 
-            } else {
+            } else if(!vm->errorState.allocationFailure) {
                 nkiAddError(vm, "External type value out of range.");
             }
         }
diff --git a/src/nkvm.c b/src/nkvm.c
index 4d031eb..d80c4ef 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -306,7 +306,19 @@ void nkiVmDestroy(struct NKVM *vm)
 
         NK_FAILURE_RECOVERY_DECL();
 
-        NK_SET_FAILURE_RECOVERY_VOID();
+        NK_SET_FAILURE_RECOVERY_BASE();
+        if(setjmp(catastrophicFailureJmpBuf)) {
+
+            // Ran out of memory in the middle of the cleanup. The
+            // subsystems are gone already, so nobody else is going to
+            // clean up the remaining external data. The object table
+            // is still good and this doesn't allocate anything. After
+            // that, start over in catastrophic failure cleanup mode.
+            NK_CLEAR_FAILURE_RECOVERY();
+            nkiVmObjectTableCleanAllObjects(vm);
+            nkiVmDestroy(vm);
+            return;
+        }
 
         // Nuke the entire static address space and stack, then force
         // a final garbage collection pass before we start making the
-- 
2.43.0


From 788d5d747a22add9e905e1bf5746c29c25aeff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 13/49] fix: setting up an external function again leaked its
 argument type list

and kept a stale pointer when the new allocation failed.
---
 src/nkx.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 45ec68b..3b09c5f 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -442,9 +442,10 @@ static void nkiSetupExternalFunction_addArgs(
     NK_FAILURE_RECOVERY_DECL();
     NK_SET_FAILURE_RECOVERY_VOID();
 
-    if(func->argTypes) {
-        nkiFree(vm, func->argTypes);
-    }
+    nkiFree(vm, func->argTypes);
+    func->argTypes = NULL;
+    nkiFree(vm, func->argExternalTypes);
+    func->argExternalTypes = NULL;
 
     func->argTypes = (enum NKValueType *)nkiMallocArray(
         vm,
-- 
2.43.0


From a5fb654dc9b62b528d8cbb92bd898cb635aac511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 14/49] fix: keep API calls harmless after an allocation
 failure

Global variable, external type and program end look-ups read half-built
or freed tables after a failure, and asking for the handle count of a
non-object added an error without failure recovery set up.
---
 src/nkvm.c |  6 +++++-
 src/nkx.c  | 35 ++++++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index d80c4ef..f28c4d2 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -520,7 +520,11 @@ NKVMExternalDataTypeID nkiVmFindExternalType(
 
     if(vm->externalTypes) {
         for(i = 0; i < vm->externalTypeCount; i++) {
-            if(!nkiStrcmp(vm->externalTypes[i].name, name)) {
+            // The name might be missing if memory ran out during
+            // the type's registration.
+            if(vm->externalTypes[i].name &&
+                !nkiStrcmp(vm->externalTypes[i].name, name))
+            {
                 ret.id = i;
                 return ret;
             }
diff --git a/src/nkx.c b/src/nkx.c
index 3b09c5f..cebc9d0 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -186,22 +186,20 @@ void nkxVmCallFunction(
 struct NKValue *nkxVmFindGlobalVariable(
     struct NKVM *vm, struct NKCompilerState *cs, const char *name)
 {
+    NK_FAILURE_RECOVERY_DECL();
+    struct NKValue *ret = NULL;
+    NK_SET_FAILURE_RECOVERY(NULL);
     if(cs) {
-        NK_FAILURE_RECOVERY_DECL();
-        struct NKValue *ret = NULL;
-        NK_SET_FAILURE_RECOVERY(NULL);
-        {
-            struct NKCompilerStateContextVariable *var =
-                nkiCompilerLookupVariable(cs, name);
-            if(var) {
-                ret = &vm->staticSpace[var->position & vm->staticAddressMask];
-            }
+        struct NKCompilerStateContextVariable *var =
+            nkiCompilerLookupVariable(cs, name);
+        if(var) {
+            ret = &vm->staticSpace[var->position & vm->staticAddressMask];
         }
-        NK_CLEAR_FAILURE_RECOVERY();
-        return ret;
     } else {
-        return nkiVmFindGlobalVariable(vm, name);
+        ret = nkiVmFindGlobalVariable(vm, name);
     }
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 struct NKValue *nkxCompilerCreateGlobalVariable(
@@ -419,7 +417,12 @@ void nkxVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
 
 nkuint32_t nkxVmObjectGetExternalHandleCount(struct NKVM *vm, struct NKValue *value)
 {
-    return nkiVmObjectGetExternalHandleCount(vm, value);
+    nkuint32_t ret = 0;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(0);
+    ret = nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 void nkxSetUserData(struct NKVM *vm, void *userData)
@@ -1128,6 +1131,12 @@ void nkxValueSetFunction(struct NKVM *vm, struct NKValue *value, NKVMInternalFun
 
 nkbool nkxVmProgramHasEnded(struct NKVM *vm)
 {
+    // Nothing runs anymore after an allocation failure, and the
+    // instructions and context might be incomplete.
+    if(vm->errorState.allocationFailure) {
+        return nktrue;
+    }
+
     return vm->instructions[
         vm->currentExecutionContext->instructionPointer &
         vm->instructionAddressMask].opcode == NK_OP_END;
-- 
2.43.0


From a4bf157b585c5616239943ea7691531e97c48b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 15/49] fix: refuse a field beyond the limit before adding it

---
 src/nkobjs.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 36fa203..7252730 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -249,6 +249,11 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        if(ob->size == NK_UINT_MAX || ob->size >= vm->limits.maxFieldsPerObject) {
+            nkiAddError(vm, "Reached object field count limit.");
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -257,13 +262,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
-- 
2.43.0


From 7105b5fc0868bf8547e8db90cf4891f6b13c2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 16/49] fix: releasing a handle nobody holds must not wrap the
 handle count

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 7252730..f98df4f 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -343,6 +343,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From c6d84e7a36ea275d46eb235cbd0d5fd10dbb7a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 17/49] fix: limit the nesting of calls from native functions
 back into the machine

---
 src/nkfunc.c | 10 ++++++++++
 src/nkvm.c   |  1 +
 src/nkvm.h   |  7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 00339f6..f70590e 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -76,6 +76,13 @@ void nkiVmCallFunction(
         return;
     }
 
+    // Every nested call uses up some of the host's own stack.
+    if(vm->callFunctionDepth >= nkiVmMaxCallFunctionDepth) {
+        nkiAddError(vm, "Reached nesting limit for calls from native functions.");
+        return;
+    }
+    vm->callFunctionDepth++;
+
     {
         // Save whatever the real instruction pointer was so that we
         // can restore it after we're done with this artificially
@@ -109,6 +116,7 @@ void nkiVmCallFunction(
         // associated with. Or an error.
         nkiOpcode_call(vm);
         if(vm->errorState.firstError) {
+            vm->callFunctionDepth--;
             return;
         }
 
@@ -143,6 +151,8 @@ void nkiVmCallFunction(
         // Restore old state.
         vm->currentExecutionContext->instructionPointer = oldInstructionPtr;
     }
+
+    vm->callFunctionDepth--;
 }
 
 NKVMExternalFunctionID nkiVmRegisterExternalFunction(
diff --git a/src/nkvm.c b/src/nkvm.c
index f28c4d2..dce4918 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -200,6 +200,7 @@ void nkiVmInit(struct NKVM *vm)
     vm->limits.maxFieldsPerObject = NK_UINT_MAX;
     vm->limits.maxAllocatedMemory = NK_UINT_MAX;
     vm->instructionsLeftBeforeTimeout = NK_INVALID_VALUE;
+    vm->callFunctionDepth = 0;
 
     vm->userData = NULL;
     vm->externalFunctionCount = 0;
diff --git a/src/nkvm.h b/src/nkvm.h
index c26e069..ff7d683 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -62,6 +62,10 @@
 struct NKVMFunction;
 struct NKMemoryHeader;
 
+/// Maximum number of nested calls from native functions back into the
+/// VM. Each of these takes up space on the host's own stack.
+#define nkiVmMaxCallFunctionDepth 512
+
 struct NKVMLimits
 {
     // Many of these values are only checked when a section needs to
@@ -264,6 +268,9 @@ struct NKVM
 
     nkuint32_t instructionsLeftBeforeTimeout;
 
+    // How many nkiVmCallFunction() calls are currently in progress.
+    nkuint32_t callFunctionDepth;
+
     struct NKVMExternalSubsystemData *subsystemDataTable[nkiVmExternalSubsystemHashTableSize];
 
     // Source code file names, for error reporting and debugging.
-- 
2.43.0


From c4532dadcbd996c2cc685a8c4e7cbfab0260cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 18/49] fix: count new strings towards the next automatic
 collection

---
 src/nkstring.c | 6 ++++++
 src/nkx.h      | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nkstring.c b/src/nkstring.c
index 8158bd6..d1e51b1 100644
--- a/src/nkstring.c
+++ b/src/nkstring.c
@@ -146,6 +146,12 @@ nkuint32_t nkiVmStringTableFindOrAddString(
             newString->nextInHashBucket = hashBucket;
             vm->stringsByHash[hash & (nkiVmStringHashTableSize - 1)] = newString;
 
+            // Tick the garbage collector, so that scripts that only
+            // ever make new strings get collected too.
+            if(vm->gcInfo.gcNewObjectCountdown) {
+                vm->gcInfo.gcNewObjectCountdown--;
+            }
+
             return newString->stringTableIndex;
         }
     }
diff --git a/src/nkx.h b/src/nkx.h
index a1f2900..2a5a957 100644
--- a/src/nkx.h
+++ b/src/nkx.h
@@ -257,8 +257,8 @@ nkuint32_t nkxGetMaxAllocatedMemory(struct NKVM *vm);
 void nkxSetGarbageCollectionInterval(struct NKVM *vm, nkuint32_t gcInterval);
 nkuint32_t nkxGetGarbageCollectionInterval(struct NKVM *vm);
 
-/// Set the number of objects that can be created before triggering
-/// the next garbage collection pass.
+/// Set the number of objects (and strings) that can be created before
+/// triggering the next garbage collection pass.
 void nkxSetGarbageCollectionNewObjectInterval(struct NKVM *vm, nkuint32_t gcNewObjectInterval);
 nkuint32_t nkxGetGarbageCollectionNewObjectInterval(struct NKVM *vm);
 
-- 
2.43.0


From ae2a7d89ba296dbd3450c01128548e7d42fca241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:02 +0000
Subject: [PATCH 19/49] fix: yielding across a call from a native function is
 an error

---
 src/nkcorout.c | 1 +
 src/nkopcode.c | 5 +++++
 src/nkvm.c     | 1 +
 src/nkvm.h     | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/src/nkcorout.c b/src/nkcorout.c
index 1c122dc..51e1319 100644
--- a/src/nkcorout.c
+++ b/src/nkcorout.c
@@ -180,6 +180,7 @@ void nkiVmPushExecutionContext(
     }
 
     context->parent = vm->currentExecutionContext;
+    context->callFunctionDepth = vm->callFunctionDepth;
     vm->currentExecutionContext = context;
 }
 
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 3153534..47e6926 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1239,6 +1239,11 @@ void nkiOpcode_coroutineYield(struct NKVM *vm)
 
         nkiAddError(vm, "Tried to yield from the root execution context.");
 
+    } else if(vm->currentExecutionContext->callFunctionDepth != vm->callFunctionDepth) {
+
+        // Native functions in between cannot be suspended.
+        nkiAddError(vm, "Tried to yield across a call from a native function.");
+
     } else {
 
         // Retrieve return value from the coroutine execution context.
diff --git a/src/nkvm.c b/src/nkvm.c
index dce4918..3dbebaf 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -172,6 +172,7 @@ void nkiVmInitExecutionContext(
     context->coroutineObject.type = NK_VALUETYPE_NIL;
     context->coroutineObject.intData = 0;
     context->coroutineState = NK_COROUTINE_INVALID;
+    context->callFunctionDepth = 0;
 }
 
 void nkiVmDeinitExecutionContext(
diff --git a/src/nkvm.h b/src/nkvm.h
index ff7d683..efc5671 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -183,6 +183,10 @@ struct NKVMExecutionContext
 
     // This corresponds to the NKVMCoroutineState enum.
     nkuint32_t coroutineState;
+
+    // Depth of calls from native functions into the VM at the point
+    // where this was resumed. It may only yield at the same depth.
+    nkuint32_t callFunctionDepth;
 };
 
 /// The VM object itself.
-- 
2.43.0


From b8424529c3747b5683deace11311988070e75bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:12 +0000
Subject: [PATCH 20/49] fix: errors in calls from native functions and in
 coroutine() name the calling line

---
 src/nkfunc.c | 15 +++++++++++++--
 src/nkvm.c   | 16 +++++++++++++++-
 src/nkvm.h   |  4 ++++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index f70590e..f9623c3 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -87,9 +87,17 @@ void nkiVmCallFunction(
         // Save whatever the real instruction pointer was so that we
         // can restore it after we're done with this artificially
         // injected function call.
-        nkuint32_t oldInstructionPtr = vm->currentExecutionContext->instructionPointer;
+        struct NKVMExecutionContext *context = vm->currentExecutionContext;
+        nkuint32_t oldInstructionPtr = context->instructionPointer;
+        nkuint32_t oldCallFunctionInstructionPtr = vm->callFunctionInstructionPointer;
         nkuint32_t i;
 
+        // Remember the interrupted script instruction for error
+        // locations.
+        if(oldInstructionPtr != NK_UINT_MAX - 1) {
+            vm->callFunctionInstructionPointer = oldInstructionPtr;
+        }
+
         // Push the function ID itself onto the stack.
         *nkiVmStackPush_internal(vm) = *functionValue;
 
@@ -116,6 +124,8 @@ void nkiVmCallFunction(
         // associated with. Or an error.
         nkiOpcode_call(vm);
         if(vm->errorState.firstError) {
+            vm->callFunctionInstructionPointer = oldCallFunctionInstructionPtr;
+            context->instructionPointer = oldInstructionPtr;
             vm->callFunctionDepth--;
             return;
         }
@@ -149,7 +159,8 @@ void nkiVmCallFunction(
         }
 
         // Restore old state.
-        vm->currentExecutionContext->instructionPointer = oldInstructionPtr;
+        context->instructionPointer = oldInstructionPtr;
+        vm->callFunctionInstructionPointer = oldCallFunctionInstructionPtr;
     }
 
     vm->callFunctionDepth--;
diff --git a/src/nkvm.c b/src/nkvm.c
index 3dbebaf..c92dc46 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -202,6 +202,7 @@ void nkiVmInit(struct NKVM *vm)
     vm->limits.maxAllocatedMemory = NK_UINT_MAX;
     vm->instructionsLeftBeforeTimeout = NK_INVALID_VALUE;
     vm->callFunctionDepth = 0;
+    vm->callFunctionInstructionPointer = 0;
 
     vm->userData = NULL;
     vm->externalFunctionCount = 0;
@@ -658,8 +659,21 @@ struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
 
 struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
 {
+    struct NKVMExecutionContext *context = vm->currentExecutionContext;
+    nkuint32_t instructionPointer = context->instructionPointer;
+
+    // Coroutine that is still being created.
+    if(instructionPointer == NK_INVALID_VALUE && context->parent) {
+        instructionPointer = context->parent->instructionPointer;
+    }
+
+    // Call from outside of script code. See nkiVmCallFunction().
+    if(instructionPointer == NK_UINT_MAX - 1) {
+        instructionPointer = vm->callFunctionInstructionPointer;
+    }
+
     return nkiVmFindSourceMarker(
         vm,
-        vm->currentExecutionContext->instructionPointer &
+        instructionPointer &
         vm->instructionAddressMask);
 }
diff --git a/src/nkvm.h b/src/nkvm.h
index efc5671..fa23bd5 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -275,6 +275,10 @@ struct NKVM
     // How many nkiVmCallFunction() calls are currently in progress.
     nkuint32_t callFunctionDepth;
 
+    // Instruction that the innermost nkiVmCallFunction() interrupted.
+    // Used for error locations outside of any script function.
+    nkuint32_t callFunctionInstructionPointer;
+
     struct NKVMExternalSubsystemData *subsystemDataTable[nkiVmExternalSubsystemHashTableSize];
 
     // Source code file names, for error reporting and debugging.
-- 
2.43.0


From b5a0b82f3d462a09adfb914654bab91e829a661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 21/49] fix: creating a coroutine from a native function is an
 error

---
 src/nkopcode.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 47e6926..9f44250 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -612,6 +612,16 @@ void nkiOpcode_call(struct NKVM *vm)
 
         nkiMemset(&data, 0, sizeof(data));
 
+        // Coroutines start outside of any code (see
+        // nkiOpcode_coroutineCreate()) and need script code to
+        // continue with later.
+        if(vm->currentExecutionContext->instructionPointer == NK_INVALID_VALUE) {
+            nkiAddError(
+                vm,
+                "Tried to create a coroutine from a native function.");
+            return;
+        }
+
         // First check that this is a valid function. Maybe we go
         // weird data from deserialization.
         if(funcOb->externalFunctionId.id >= vm->externalFunctionCount) {
-- 
2.43.0


From ec475d2341cd369844e3a1a20758ab9b79ceacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 22/49] fix: looking up a global variable that does not exist
 is not an error

---
 src/nkcompil.c | 22 ++++++++++++++++++++++
 src/nkcompil.h |  7 +++++++
 src/nkx.c      |  2 +-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index fa7ff5f..2abd866 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -557,6 +557,28 @@ struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
     return var;
 }
 
+struct NKCompilerStateContextVariable *nkiCompilerFindGlobalVariable(
+    struct NKCompilerState *cs,
+    const char *name)
+{
+    struct NKCompilerStateContext *ctx = cs->context;
+    struct NKCompilerStateContextVariable *var = NULL;
+
+    while(ctx && ctx->parent) {
+        ctx = ctx->parent;
+    }
+
+    if(ctx) {
+        var = ctx->variables;
+    }
+
+    while(var && nkiStrcmp(var->name, name)) {
+        var = var->next;
+    }
+
+    return var;
+}
+
 nkbool nkiCompilerCompileBlock(struct NKCompilerState *cs, nkbool noBracesOrContext)
 {
     struct NKCompilerStateContext *startContext = cs->context;
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 36d8e46..7ab9068 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -162,6 +162,13 @@ struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
     struct NKCompilerState *cs,
     const char *name);
 
+/// Look up a global variable from any context. Unlike
+/// nkiCompilerLookupVariable(), this does not add an error if the
+/// variable does not exist.
+struct NKCompilerStateContextVariable *nkiCompilerFindGlobalVariable(
+    struct NKCompilerState *cs,
+    const char *name);
+
 /// Create a C function and assign it a variable name at the current
 /// scope. Use this to make a globally defined C function at
 /// compile-time. Do this before script compilation, so the script
diff --git a/src/nkx.c b/src/nkx.c
index cebc9d0..36a9a3e 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -191,7 +191,7 @@ struct NKValue *nkxVmFindGlobalVariable(
     NK_SET_FAILURE_RECOVERY(NULL);
     if(cs) {
         struct NKCompilerStateContextVariable *var =
-            nkiCompilerLookupVariable(cs, name);
+            nkiCompilerFindGlobalVariable(cs, name);
         if(var) {
             ret = &vm->staticSpace[var->position & vm->staticAddressMask];
         }
-- 
2.43.0


From 91de829dfb29606501a109e51c5a3788f0a5b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 23/49] fix: preprocessor strings end on their own line

---
 src/nktoken.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 9590642..8e132a7 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -322,7 +322,18 @@ nkbool nkiCompilerGetPreprocessorTokens(
             // Attempt to parse a quoted string.
             while(1) {
 
-                if(str[k] == '\\') {
+                if(!str[k] || str[k] == '\n') {
+
+                    // The quoted string does not end on this line.
+                    nkiAddErrorEx(
+                        vm, lineNumber, fileIndex,
+                        "Unterminated string in preprocessor directive.");
+
+                    nkiCompilerFreeStringList(vm, tokens, tokenCount);
+
+                    return nkfalse;
+
+                } else if(str[k] == '\\') {
 
                     skipNext = !skipNext;
 
@@ -337,6 +348,8 @@ nkbool nkiCompilerGetPreprocessorTokens(
 
                     }
 
+                    skipNext = nkfalse;
+
                 } else {
 
                     skipNext = nkfalse;
-- 
2.43.0


From fd3c92aecb7ff4e6f248809aae81e384eb413d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 24/49] fix: a quoted string that never ends is an error

---
 src/nktoken.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nktoken.c b/src/nktoken.c
index 8e132a7..85f9a63 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -697,6 +697,11 @@ nkbool nkiCompilerTokenize(
                 strEnd++;
             }
 
+            if(!*strEnd) {
+                nkiAddErrorEx(vm, lineNumber, fileIndex, "Unterminated quoted string.");
+                return nkfalse;
+            }
+
             // Copy the subsection of the string within the quotes.
             quotedLen = (strEnd - strStart);
             strTmp = (char *)nkiMalloc(vm, quotedLen + 1);
-- 
2.43.0


From 99961585912120a87653bccc0edfa31ae34fc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 25/49] fix: directives count their own line, whatever its
 ending

---
 src/nktoken.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 85f9a63..f2295dc 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -430,6 +430,13 @@ nkbool nkiCompilerGetPreprocessorTokens(
     return nktrue;
 }
 
+// Line numbers come from the script (#line), so they wrap instead of
+// overflowing.
+static nkint32_t nkiCompilerNextLine(nkint32_t lineNumber)
+{
+    return (nkint32_t)((nkuint32_t)lineNumber + 1);
+}
+
 nkbool nkiCompilerTokenize(
     struct NKVM *vm,
     const char *str,
@@ -449,7 +456,7 @@ nkbool nkiCompilerTokenize(
         // Skip whitespace.
         while(i < len && nkiCompilerIsWhitespace(str[i])) {
             if(str[i] == '\n') {
-                lineNumber++;
+                lineNumber = nkiCompilerNextLine(lineNumber);
                 actualLineNumber++;
             }
             i++;
@@ -462,10 +469,11 @@ nkbool nkiCompilerTokenize(
             nkuint32_t lineStart = i;
             char **tokenStringList = NULL;
             nkuint32_t tokenCount = 0;
+            nkbool lineNumberSet = nkfalse;
 
             // Figure out how long the line is, and also advance the
             // tokenization system past it.
-            while(str[i] != '\n' && str[i] != '\r' && str[i]) {
+            while(str[i] != '\n' && str[i]) {
                 i++;
             }
 
@@ -498,6 +506,7 @@ nkbool nkiCompilerTokenize(
                     }
 
                     lineNumber = atol(tokenStringList[1]);
+                    lineNumberSet = nktrue;
 
                     if(tokenCount > 2) {
                         fileIndex = nkiVmAddSourceFile(vm, tokenStringList[2]);
@@ -533,6 +542,15 @@ nkbool nkiCompilerTokenize(
             // Clean up.
             nkiCompilerFreeStringList(vm, tokenStringList, tokenCount);
 
+            // The newline at the end of the directive is skipped below.
+            // #line already gave the number of the line after it.
+            if(str[i] == '\n') {
+                if(!lineNumberSet) {
+                    lineNumber = nkiCompilerNextLine(lineNumber);
+                }
+                actualLineNumber++;
+            }
+
         } else if(str[i] == '(') {
 
             nkiCompilerAddToken(vm, NK_TOKENTYPE_PAREN_OPEN, "(", NK_TOKEN_STATE_PARAMETERS);
-- 
2.43.0


From 209c374c0addd273ba8e8d3c8814435975a7e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 26/49] fix: long chains of operators must not exhaust the C
 stack

---
 src/nkexpr.c | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 95acae6..fcce0c5 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -46,23 +46,38 @@
 // TODO: Make a non-recursive version of this.
 void nkiCompilerDeleteExpressionNode(struct NKVM *vm, struct NKExpressionAstNode *node)
 {
+    // Long chains of operators make trees too deep to delete
+    // recursively, so nodes waiting to be deleted are kept in a list,
+    // linked through stackNext.
+    struct NKExpressionAstNode *pending = node;
+
     if(!node) {
         return;
     }
 
-    if(node->ownedToken) {
-        nkiCompilerDeleteToken(vm, node->opOrValue);
-        node->opOrValue = NULL;
-    }
+    node->stackNext = NULL;
 
-    if(node->children[0]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[0]);
-    }
-    if(node->children[1]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[1]);
-    }
+    while(pending) {
+
+        nkuint32_t i;
+
+        node = pending;
+        pending = node->stackNext;
+
+        if(node->ownedToken) {
+            nkiCompilerDeleteToken(vm, node->opOrValue);
+            node->opOrValue = NULL;
+        }
+
+        for(i = 0; i < 2; i++) {
+            if(node->children[i]) {
+                node->children[i]->stackNext = pending;
+                pending = node->children[i];
+            }
+        }
 
-    nkiFree(vm, node);
+        nkiFree(vm, node);
+    }
 }
 
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token)
@@ -1079,6 +1094,10 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
         return NULL;
     }
 
+    if(!nkiCompilerPushRecursion(cs)) {
+        return NULL;
+    }
+
     newNode = (struct NKExpressionAstNode *)nkiMalloc(
         cs->vm, sizeof(struct NKExpressionAstNode));
     nkiMemset(newNode, 0, sizeof(*newNode));
@@ -1100,6 +1119,7 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
     newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
     newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
 
+    nkiCompilerPopRecursion(cs);
     return newNode;
 }
 
@@ -1296,7 +1316,11 @@ struct NKExpressionAstNode *nkiCompilerCompileExpressionWithoutEmit(
     if(node) {
         nkiCompilerExpressionExpandIncrementsAndDecrements(
             cs, node, returnValueCanBeDiscarded);
-        nkiCompilerOptimizeConstants(cs->vm, &node);
+
+        // Errors include trees that are too deep to recurse into.
+        if(!nkiGetErrorCount(cs->vm)) {
+            nkiCompilerOptimizeConstants(cs->vm, &node);
+        }
     }
 
     if(nkiGetErrorCount(cs->vm)) {
-- 
2.43.0


From 6d3ea552d66652f43aece23edfa9f996c1a385b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 27/49] fix: reject operators without operands and mismatched
 parentheses

---
 src/nkexpr.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index fcce0c5..99a34a0 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -103,6 +103,19 @@ nkbool nkiCompilerIsPrefixOperator(struct NKToken *token)
         token->type == NK_TOKENTYPE_NOT);
 }
 
+// Tokens that are values on their own.
+static nkbool nkiCompilerIsValueToken(struct NKToken *token)
+{
+    return token && (
+        token->type == NK_TOKENTYPE_INTEGER ||
+        token->type == NK_TOKENTYPE_FLOAT ||
+        token->type == NK_TOKENTYPE_STRING ||
+        token->type == NK_TOKENTYPE_IDENTIFIER ||
+        token->type == NK_TOKENTYPE_NEWOBJECT ||
+        token->type == NK_TOKENTYPE_NIL ||
+        token->type == NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION);
+}
+
 nkbool nkiCompilerIsPostfixOperator(struct NKToken *token)
 {
     return token && (
@@ -341,7 +354,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
             }
 
             // Make sure we ended on a closing parenthesis.
-            if(!(*currentToken) || !nkiCompilerIsSubexpressionEndingToken(*currentToken)) {
+            if(nkiCompilerCurrentTokenType(cs) != NK_TOKENTYPE_PAREN_CLOSE) {
                 nkiCompilerAddError(cs, "Bad expression end.");
                 NK_CLEANUP_INLOOP();
                 nkiCompilerPopRecursion(cs);
@@ -387,6 +400,17 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
                     valueNode->ownedToken = nktrue;
 
+                } else if(!nkiCompilerIsValueToken(*currentToken)) {
+
+                    struct NKDynString *str =
+                        nkiDynStrCreate(cs->vm, "Unexpected token in expression: ");
+                    nkiDynStrAppend(str, nkiCompilerCurrentTokenString(cs));
+                    nkiCompilerAddError(cs, str->data);
+                    nkiDynStrDelete(str);
+                    NK_CLEANUP_INLOOP();
+                    nkiCompilerPopRecursion(cs);
+                    return NULL;
+
                 } else {
 
                     // Function-style expression names get routed
-- 
2.43.0


From c3460ac5ab6f2e60e9db69d9229444015d001c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 28/49] fix: errors about generated tokens name the right file

---
 src/nkexpr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 99a34a0..2803fa4 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -397,6 +397,8 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
                     valueNode->opOrValue->next = NULL;
                     valueNode->opOrValue->lineNumber =
                         nkiCompilerCurrentTokenLinenumber(cs);
+                    valueNode->opOrValue->fileIndex =
+                        nkiCompilerCurrentTokenFileIndex(cs);
 
                     valueNode->ownedToken = nktrue;
 
@@ -480,6 +482,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
                     identifierStringNode->opOrValue->str = nkiStrdup(cs->vm, cs->currentToken->str);
                     identifierStringNode->opOrValue->next = NULL;
                     identifierStringNode->opOrValue->lineNumber = cs->currentToken->lineNumber;
+                    identifierStringNode->opOrValue->fileIndex = cs->currentToken->fileIndex;
                     identifierStringNode->ownedToken = nktrue;
 
                     // Expression node for the index-into operation.
@@ -489,6 +492,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
                     indexIntoNode->opOrValue->str = nkiStrdup(cs->vm, "[");
                     indexIntoNode->opOrValue->next = NULL;
                     indexIntoNode->opOrValue->lineNumber = cs->currentToken->lineNumber;
+                    indexIntoNode->opOrValue->fileIndex = cs->currentToken->fileIndex;
                     indexIntoNode->ownedToken = nktrue;
                     indexIntoNode->children[1] = identifierStringNode;
 
@@ -509,6 +513,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
                             functionCallNode->opOrValue->str = nkiStrdup(cs->vm, "(");
                             functionCallNode->opOrValue->next = NULL;
                             functionCallNode->opOrValue->lineNumber = cs->currentToken->lineNumber;
+                            functionCallNode->opOrValue->fileIndex = cs->currentToken->fileIndex;
                             functionCallNode->ownedToken = nktrue;
                             functionCallNode->children[0] = indexIntoNode;
                             functionCallNode->children[1] = NULL;
@@ -605,6 +610,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
                     oldToken->type == NK_TOKENTYPE_INCREMENT ? "++" : "--");
                 newToken->next = NULL;
                 newToken->lineNumber = cs->currentToken->lineNumber;
+                newToken->fileIndex = cs->currentToken->fileIndex;
 
                 postfixNode->opOrValue = newToken;
                 postfixNode->ownedToken = nktrue;
@@ -657,6 +663,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
                 firstPostfixOp->opOrValue->type = valueNode->opOrValue->type;
                 firstPostfixOp->opOrValue->str = nkiStrdup(cs->vm, valueNode->opOrValue->str);
                 firstPostfixOp->opOrValue->lineNumber = valueNode->opOrValue->lineNumber;
+                firstPostfixOp->opOrValue->fileIndex = valueNode->opOrValue->fileIndex;
                 firstPostfixOp->ownedToken = nktrue;
 
                 nkiCompilerDeleteExpressionNode(cs->vm, valueNode);
@@ -1134,6 +1141,7 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
         newNode->opOrValue->type = node->opOrValue->type;
         newNode->opOrValue->str = nkiStrdup(cs->vm, node->opOrValue->str);
         newNode->opOrValue->lineNumber = node->opOrValue->lineNumber;
+        newNode->opOrValue->fileIndex = node->opOrValue->fileIndex;
     } else {
         newNode->opOrValue = node->opOrValue;
     }
@@ -1207,6 +1215,7 @@ void nkiCompilerExpressionExpandIncrementsAndDecrements(
             literalOneNode->opOrValue->type = NK_TOKENTYPE_INTEGER;
             literalOneNode->opOrValue->str = oneTokenStr;
             literalOneNode->opOrValue->lineNumber = node->opOrValue->lineNumber;
+            literalOneNode->opOrValue->fileIndex = node->opOrValue->fileIndex;
             literalOneNode->opOrValue->next = NULL;
             literalOneNode->children[0] = NULL;
             literalOneNode->children[1] = NULL;
@@ -1220,6 +1229,7 @@ void nkiCompilerExpressionExpandIncrementsAndDecrements(
                 simpleType == NK_TOKENTYPE_INCREMENT ? NK_TOKENTYPE_PLUS : NK_TOKENTYPE_MINUS;
             additionNode->opOrValue->str = addTokenStr;
             additionNode->opOrValue->lineNumber = node->opOrValue->lineNumber;
+            additionNode->opOrValue->fileIndex = node->opOrValue->fileIndex;
             additionNode->opOrValue->next = NULL;
             additionNode->children[0] = rvalueNode1;
             additionNode->children[1] = literalOneNode;
@@ -1234,6 +1244,7 @@ void nkiCompilerExpressionExpandIncrementsAndDecrements(
             node->opOrValue->type = NK_TOKENTYPE_ASSIGNMENT;
             node->opOrValue->str = assignTokenStr;
             node->opOrValue->lineNumber = oldToken->lineNumber;
+            node->opOrValue->fileIndex = oldToken->fileIndex;
             node->opOrValue->next = NULL;
             node->children[0] = lvalueNode;
             node->children[1] = additionNode;
@@ -1275,6 +1286,7 @@ void nkiCompilerExpressionExpandIncrementsAndDecrements(
                         ? "-"
                         : "+");
                     node->opOrValue->lineNumber = oldToken->lineNumber;
+                    node->opOrValue->fileIndex = oldToken->fileIndex;
                     node->opOrValue->next = NULL;
                     node->children[0] = shiftedRootNode;
                     node->children[1] =
-- 
2.43.0


From 91c104397a4cd7a826167b78b3c7aff432e0c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 29/49] fix: compiling a script with errors never reports
 success

---
 src/nkcompil.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 2abd866..9a464fb 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1259,7 +1259,10 @@ nkbool nkiCompilerCompileScript(
         nkiCompilerAddPositionMarker(cs);
     }
 
-    success = nkiCompilerCompileBlock(cs, nktrue);
+    // Some errors, like declaring a variable twice, do not stop the
+    // compiler right away.
+    success = nkiCompilerCompileBlock(cs, nktrue) &&
+        !nkiGetErrorCount(cs->vm);
 
     cs->currentToken = NULL;
     cs->currentLineNumber = 0;
-- 
2.43.0


From b82ea15a5cc0ffa502fe5dcbfe4fd4b82ee45292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:39 +0000
Subject: [PATCH 30/49] fix: script files that cannot be read are an error

---
 src/nkx.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 36a9a3e..cb87af1 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -259,6 +259,7 @@ nkbool nkxCompilerCompileScriptFile(
     struct NKVM *vm = cs->vm;
     FILE *in = fopen(scriptFilename, "rb");
     nkuint32_t len;
+    long fileLen;
     char *buf;
     nkbool success;
 
@@ -270,10 +271,21 @@ nkbool nkxCompilerCompileScriptFile(
         return nkfalse;
     }
 
-    // Read file length.
-    fseek(in, 0, SEEK_END);
-    len = ftell(in);
-    fseek(in, 0, SEEK_SET);
+    // Read file length. Anything we cannot get the length of (like a
+    // directory) cannot be read, either.
+    if(fseek(in, 0, SEEK_END) ||
+        (fileLen = ftell(in)) < 0 ||
+        (unsigned long)fileLen >= NK_UINT_MAX ||
+        fseek(in, 0, SEEK_SET))
+    {
+        NK_FAILURE_RECOVERY_DECL();
+        fclose(in);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+    len = fileLen;
 
     buf = (char *)malloc(len + 1);
     if(!buf) {
@@ -281,9 +293,19 @@ nkbool nkxCompilerCompileScriptFile(
         nkiErrorStateSetAllocationFailFlag(vm);
         return nkfalse;
     }
-    fread(buf, len, 1, in);
+    len = fread(buf, 1, len, in);
     buf[len] = 0;
 
+    if(ferror(in)) {
+        NK_FAILURE_RECOVERY_DECL();
+        fclose(in);
+        free(buf);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+
     fclose(in);
     success = nkxCompilerCompileScript(cs, buf, scriptFilename);
     free(buf);
-- 
2.43.0


From 2225e996285909e4023ce234cdd594ec7f8f46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 31/49] fix: executing a program with errors runs none of it

---
 src/nkvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index c92dc46..af20c76 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -442,6 +442,11 @@ void nkiVmIterate(struct NKVM *vm)
 
 nkbool nkiVmExecuteProgram(struct NKVM *vm)
 {
+    // There may be errors from before, like from compiling.
+    if(nkiVmHasErrors(vm)) {
+        return nkfalse;
+    }
+
     while(vm->instructions[
             vm->currentExecutionContext->instructionPointer &
             vm->instructionAddressMask].opcode != NK_OP_END)
-- 
2.43.0


From aaa6f5cc910e717b151909ad7c111a35948d94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:55 +0000
Subject: [PATCH 32/49] fix: errors at the end of a script name its last line

After a for loop that ends the script there is no token to go back to
once the increment has been emitted, and errors were attributed to the
line of the loop's increment.
---
 src/nkcompil.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 9a464fb..f925524 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1546,6 +1546,9 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     struct NKExpressionAstNode *incrementExpression = NULL;
     struct NKToken *incrementToken = NULL;
     struct NKToken *tokenAfterLoop = NULL;
+    nkuint32_t lineAfterLoop = 0;
+    nkuint32_t fileAfterLoop = NK_INVALID_VALUE;
+    nkuint32_t actualLineAfterLoop = 0;
 
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
@@ -1624,6 +1627,9 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     // Emit the increment expression. Errors in it belong to the line
     // it was on, and not to whatever comes after the loop body.
     tokenAfterLoop = cs->currentToken;
+    lineAfterLoop = cs->currentLineNumber;
+    fileAfterLoop = cs->currentFileIndex;
+    actualLineAfterLoop = cs->currentActualLineNumber;
     nkiCompilerSetCurrentToken(cs, incrementToken);
     if(!nkiCompilerEmitExpression(cs, incrementExpression)) {
         nkiCompilerDeleteExpressionNode(cs->vm, incrementExpression);
@@ -1633,6 +1639,14 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerAddInstructionSimple(cs, NK_OP_POP, nktrue);
     nkiCompilerSetCurrentToken(cs, tokenAfterLoop);
+    if(!tokenAfterLoop) {
+
+        // The loop ends the script. Errors about its end still belong
+        // there.
+        cs->currentLineNumber = lineAfterLoop;
+        cs->currentFileIndex = fileAfterLoop;
+        cs->currentActualLineNumber = actualLineAfterLoop;
+    }
 
     // Emit jump back to start.
     nkiCompilerEmitJump(cs, loopStartAddress);
-- 
2.43.0


From 9dc389f79bf392ed0f1f6df6eaa6451f42d5d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:07 +0000
Subject: [PATCH 33/49] fix: allocating an array of zero-sized elements divided
 by zero

---
 src/nkmem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkmem.c b/src/nkmem.c
index 40173cb..9d6315b 100644
--- a/src/nkmem.c
+++ b/src/nkmem.c
@@ -290,7 +290,7 @@ char *nkiStrdup(struct NKVM *vm, const char *str)
 // function to wrap all of them safely.
 void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
@@ -303,7 +303,7 @@ void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 // Thanks AFL! Looks like we needed one for realloc, too.
 void *nkiReallocArray(struct NKVM *vm, void *data, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
-- 
2.43.0


From 691c3d7f87d2be2d5ce65dea5cbddb3bb6c6148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 34/49] fix: reading a long error list took quadratic time

---
 src/nkerror.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkerror.c b/src/nkerror.c
index 1ad84b4..f85eb71 100644
--- a/src/nkerror.c
+++ b/src/nkerror.c
@@ -225,6 +225,11 @@ void nkiGetErrorText(struct NKVM *vm, char *buffer)
 
             nkiStrcat(buffer, error->errorText);
             nkiStrcat(buffer, "\n");
+
+            // Don't go over what's already there again for every
+            // error. A loaded VM may have a lot of them.
+            buffer += nkiStrlen(buffer);
+
             error = error->next;
 
         }
-- 
2.43.0


From f3db1c330a4b6cb9b241b0d4bf482595d0a869c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 35/49] fix: clearing an instruction limit error lifted the
 limit

---
 src/nkvm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index af20c76..fa45090 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -423,6 +423,10 @@ void nkiVmIterate(struct NKVM *vm)
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
+
+                // Check again before the next instruction, if the
+                // error ever gets cleared. (Zero would wrap around.)
+                vm->gcInfo.gcCountdown = 1;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
-- 
2.43.0


From a0235e973e8dce57d041c214a0e46f1bcb3648ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 36/49] fix: dumping a machine with unknown opcodes or markers
 crashed

---
 src/nkdbg.c | 2 +-
 src/nkvm.c  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nkdbg.c b/src/nkdbg.c
index d25e48a..807035f 100644
--- a/src/nkdbg.c
+++ b/src/nkdbg.c
@@ -680,7 +680,7 @@ void nkiDbgDumpListing(struct NKVM *vm, const char *script, FILE *stream)
 
                 if(marker && lastLine < marker->actualLineNumber && lastLine < lineCount) {
 
-                    while(lastLine < marker->actualLineNumber && lastLine < lineCount) {
+                    while(linePtr && lastLine < marker->actualLineNumber && lastLine < lineCount) {
 
                         // Add the source code to this line and print
                         // it.
diff --git a/src/nkvm.c b/src/nkvm.c
index fa45090..cc81d79 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -139,6 +139,7 @@ static void nkiVmInitOpcodeTable(void)
     {
         nkuint32_t i;
         for(i = NK_OPCODE_REALCOUNT; i < NK_OPCODE_PADDEDCOUNT; i++) {
+            nkiOpcodeNameTable[i] = "INVALID";
             nkiOpcodeTable[i] = nkiOpcode_nop;
             nkiCompilerStackOffsetTable[i] = 0;
         }
-- 
2.43.0


From 14906432ba4feb9ed735615725e7370f50213175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 37/49] fix: coroutine objects without a coroutine crashed

---
 src/nkdbg.c    | 6 ++++++
 src/nkopcode.c | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/nkdbg.c b/src/nkdbg.c
index 807035f..8ad7090 100644
--- a/src/nkdbg.c
+++ b/src/nkdbg.c
@@ -116,6 +116,12 @@ void nkiDbgDumpExecutionContext(
     nkuint32_t i;
 
     fprintf(stream, "Execution context:\n");
+
+    if(!context) {
+        fprintf(stream, "  (none)\n");
+        return;
+    }
+
     fprintf(stream, "  instructionPointer: " NK_PRINTF_UINT32 "\n",
         context->instructionPointer);
 
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 9f44250..7247f3b 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1300,7 +1300,7 @@ void nkiOpcode_coroutineResume(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
-        if(context->coroutineState == NK_COROUTINE_INVALID) {
+        if(!context || context->coroutineState == NK_COROUTINE_INVALID) {
             nkiAddError(vm, "Tried to resume an invalid coroutine.");
             return;
         }
@@ -1365,6 +1365,11 @@ void nkiOpcode_coroutineIsFinished(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
+        if(!context) {
+            nkiAddError(vm, "Tried to check for a finished coroutine with an invalid coroutine.");
+            return;
+        }
+
         returnValue.type = NK_VALUETYPE_INT;
         returnValue.intData = 0;
 
-- 
2.43.0


From 422807f2dc3431c1e58859f9044315003f2c9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 38/49] fix: loading a damaged image left the machine
 inconsistent

---
 src/nksave.c | 236 +++++++++++++++++++++++++++++++++------------------
 src/nkvm.c   |   2 +
 2 files changed, 157 insertions(+), 81 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index a8db12e..552674d 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -174,6 +174,11 @@ nkbool nkiSerializeErrorState(
         nkuint32_t errorNum;
         struct NKError **lastPtr = &vm->errorState.firstError;
 
+        // Keep errors that were there before loading.
+        while(*lastPtr) {
+            lastPtr = &(*lastPtr)->next;
+        }
+
         for(errorNum = 0; errorNum < errorCount; errorNum++) {
             char *errorText = NULL;
             struct NKError *newError = NULL;
@@ -231,7 +236,11 @@ nkbool nkiSerializeObject(
 {
     // Note: objectTableIndex is set in calling function.
 
-    NKI_SERIALIZE_BASIC(nkuint32_t, object->size);
+    // Note: When reading, the object's own size only ever counts the
+    // entries that really made it into the object.
+    nkuint32_t objectSize = object->size;
+
+    NKI_SERIALIZE_BASIC(nkuint32_t, objectSize);
     NKI_SERIALIZE_BASIC(nkuint32_t, object->externalHandleCount);
 
     // If we're loading, we need to reconstruct the external handle
@@ -251,6 +260,16 @@ nkbool nkiSerializeObject(
     NKI_SERIALIZE_BASIC(nkuint32_t, object->lastGCPass);
     NKI_SERIALIZE_BASIC(NKVMExternalDataTypeID, object->externalDataType);
 
+    if(object->externalDataType.id != NK_INVALID_VALUE &&
+        object->externalDataType.id >= vm->externalTypeCount)
+    {
+        // Leave nothing with an unusable type behind, because the
+        // object will still be cleaned up with the rest of the VM.
+        object->externalDataType.id = NK_INVALID_VALUE;
+        nkiAddError(vm, "External type value out of range.");
+        return nkfalse;
+    }
+
     // Serialize all hash buckets.
     if(writeMode) {
 
@@ -266,10 +285,8 @@ nkbool nkiSerializeObject(
 
     } else {
 
-        nkuint32_t loadedSize = object->size;
         nkuint32_t n;
-        object->size = 0;
-        for(n = 0; n < loadedSize; n++) {
+        for(n = 0; n < objectSize; n++) {
             struct NKValue key;
             struct NKValue *value;
             nkiMemset(&key, 0, sizeof(key));
@@ -277,10 +294,14 @@ nkbool nkiSerializeObject(
 
             value = nkiVmObjectFindOrAddEntry(vm, object, &key, nkfalse);
 
-            if(value) {
-                NKI_SERIALIZE_BASIC(struct NKValue, *value);
+            // Failing to add the field (because of limits) leaves the
+            // value in the input, where it would be taken for
+            // something else.
+            if(!value) {
+                return nkfalse;
             }
 
+            NKI_SERIALIZE_BASIC(struct NKValue, *value);
         }
 
     }
@@ -305,7 +326,7 @@ nkbool nkiSerializeObjectTable(
 
     // Ensure capacity is a power of two.
     NKI_SERIALIZE_BASIC(nkuint32_t, capacity);
-    if(!nkiIsPow2(capacity)) {
+    if(!capacity || !nkiIsPow2(capacity)) {
         nkiAddError(vm, "Object table capacity is not a power of two.");
         return nkfalse;
     }
@@ -322,17 +343,25 @@ nkbool nkiSerializeObjectTable(
 
     } else {
 
-        // Reallocate the object table if we're reading.
-        nkiFree(vm, vm->objectTable.objectTable);
-        vm->objectTable.objectTable = NULL;
+        struct NKVMObject **newTable;
 
-        vm->objectTable.objectTable =
+        // Clean up the objects that are already in the VM. Nothing
+        // can be left referring to them.
+        vm->currentExecutionContext = &vm->rootExecutionContext;
+        nkiVmObjectTableCleanAllObjects(vm);
+        vm->objectsWithExternalHandles = NULL;
+
+        // Reallocate the object table if we're reading.
+        newTable =
             (struct NKVMObject **)nkiMallocArray(
                 vm, sizeof(struct NKVMObject *), capacity);
         nkiMemset(
-            vm->objectTable.objectTable, 0,
+            newTable, 0,
             sizeof(struct NKVMObject *) * capacity);
 
+        // The capacity must never differ from the table it's used on.
+        nkiFree(vm, vm->objectTable.objectTable);
+        vm->objectTable.objectTable = newTable;
         vm->objectTable.capacity = capacity;
 
         // Free the holes.
@@ -438,24 +467,30 @@ nkbool nkiSerializeStringTable(
 
     NKI_SERIALIZE_BASIC(nkuint32_t, capacity);
 
+    // Thanks AFL!
+    if(!capacity || !nkiIsPow2(capacity)) {
+        nkiAddError(vm, "String table capacity is not a power of two.");
+        return nkfalse;
+    }
+
+    // Thanks AFL! String table size can cause a 32-bit integer
+    // overflow after being multiplied by the size of the string
+    // pointer. (FIXME: We might not need this after the addition
+    // of nkiMallocArray.)
+    if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= capacity) {
+        nkiAddError(vm, "String table too large.");
+        return nkfalse;
+    }
+
     // Destroy and recreate the string table with the specified
     // capacity, if we're in READ mode.
     if(!writeMode) {
-        nkiVmStringTableDestroy(vm);
-        vm->stringTable.capacity = capacity;
 
-        // Thanks AFL! String table size can cause a 32-bit integer
-        // overflow after being multiplied by the size of the string
-        // pointer. (FIXME: We might not need this after the addition
-        // of nkiMallocArray.)
-        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= vm->stringTable.capacity) {
-            nkiAddError(vm, "String table too large.");
-            return nkfalse;
-        }
+        nkiVmStringTableDestroy(vm);
 
         vm->stringTable.stringTable =
             (struct NKVMString **)nkiMallocArray(
-                vm, sizeof(struct NKVMString*), vm->stringTable.capacity);
+                vm, sizeof(struct NKVMString*), capacity);
 
         // Note: Memset takes a size_t here, which on 64-bit bit can
         // take higher values than our nkuint32_t type passed into
@@ -463,13 +498,9 @@ nkbool nkiSerializeStringTable(
         // than it's possible for us to allocate, even with the same
         // equation!
         nkiMemset(vm->stringTable.stringTable, 0,
-            vm->stringTable.capacity * sizeof(struct NKVMString*));
-    }
+            capacity * sizeof(struct NKVMString*));
 
-    // Thanks AFL!
-    if(!nkiIsPow2(vm->stringTable.capacity)) {
-        nkiAddError(vm, "String table capacity is not a power of two.");
-        return nkfalse;
+        vm->stringTable.capacity = capacity;
     }
 
     {
@@ -555,9 +586,6 @@ nkbool nkiSerializeStringTable(
                     // Free the string we loaded from the file.
                     nkiFree(vm, tmpStr);
 
-                    NKI_SERIALIZE_BASIC(nkuint32_t, vm->stringTable.stringTable[index]->lastGCPass);
-                    NKI_SERIALIZE_BASIC(nkbool, vm->stringTable.stringTable[index]->dontGC);
-
                     // Fix up some data.
                     vm->stringTable.stringTable[index]->stringTableIndex = index;
                     vm->stringTable.stringTable[index]->hash =
@@ -574,6 +602,9 @@ nkbool nkiSerializeStringTable(
                             vm->stringTable.stringTable[index]->hash & hashMask] =
                             vm->stringTable.stringTable[index];
                     }
+
+                    NKI_SERIALIZE_BASIC(nkuint32_t, vm->stringTable.stringTable[index]->lastGCPass);
+                    NKI_SERIALIZE_BASIC(nkbool, vm->stringTable.stringTable[index]->dontGC);
                 }
 
             }
@@ -609,6 +640,7 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
 {
     // Find the actual end of the instruction buffer.
     nkuint32_t instructionLimitSearch = vm->instructionAddressMask;
+    nkuint32_t instructionAddressMask = vm->instructionAddressMask;
     if(writeMode) {
         while(instructionLimitSearch && vm->instructions[instructionLimitSearch].opcode == NK_OP_NOP) {
             instructionLimitSearch--;
@@ -623,38 +655,44 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
     // something like a literal value instead of a real opcode, and if
     // we cut off the address mask before it, that would read the
     // wrong value.
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->instructionAddressMask);
+    NKI_SERIALIZE_BASIC(nkuint32_t, instructionAddressMask);
 
     // Thanks AFL! Instruction address mask of 2^32-1 means that the
     // actual allocation is 2^32, which overflows to zero, and we're
     // left in a situation where we think we have a giant instruction
     // buffer when we really have a NULL pointer.
-    if(vm->instructionAddressMask == ~(nkuint32_t)0) {
+    if(instructionAddressMask == ~(nkuint32_t)0) {
         nkiAddError(vm, "Instruction address mask is too large.");
         return nkfalse;
     }
 
-    if(!nkiIsPow2(vm->instructionAddressMask + 1)) {
+    if(!nkiIsPow2(instructionAddressMask + 1)) {
         nkiAddError(vm, "Instruction address mask is not a power of two minus one.");
         return nkfalse;
     }
 
-    if(instructionLimitSearch > vm->instructionAddressMask) {
+    if(instructionLimitSearch > instructionAddressMask) {
         nkiAddError(vm, "Too many instructions for given instruction address mask.");
         return nkfalse;
     }
 
     // Recreate the entire instruction space if we're reading.
     if(!writeMode) {
-        nkiFree(vm, vm->instructions);
 
         // Thanks AFL!
-        vm->instructions = (struct NKInstruction *)nkiMallocArray(
-            vm,
-            sizeof(struct NKInstruction),
-            vm->instructionAddressMask + 1);
+        struct NKInstruction *instructions =
+            (struct NKInstruction *)nkiMallocArray(
+                vm,
+                sizeof(struct NKInstruction),
+                instructionAddressMask + 1);
+
+        nkiMemset(instructions, 0, sizeof(struct NKInstruction) * (instructionAddressMask + 1));
 
-        nkiMemset(vm->instructions, 0, sizeof(struct NKInstruction) * (vm->instructionAddressMask + 1));
+        // The address mask must never differ from the buffer it's
+        // used on.
+        nkiFree(vm, vm->instructions);
+        vm->instructions = instructions;
+        vm->instructionAddressMask = instructionAddressMask;
     }
 
     // Load/save the actual instructions themselves.
@@ -685,15 +723,21 @@ nkbool nkiSerializeStatics(struct NKVM *vm, NKVMSerializationWriter writer, void
         return nkfalse;
     }
 
-    vm->staticAddressMask = staticAddressMask;
-
     // Make new static space for read mode.
     if(!writeMode) {
+
+        struct NKValue *staticSpace = (struct NKValue *)nkiMallocArray(
+            vm, sizeof(struct NKValue), staticAddressMask + 1);
+
+        // Clear it, in case reading the data fails.
+        nkiMemset(staticSpace, 0,
+            sizeof(struct NKValue) * (staticAddressMask + 1));
+
+        // The address mask must never differ from the buffer it's
+        // used on.
         nkiFree(vm, vm->staticSpace);
-        // Set to NULL first in case nkiMallocArray throws an error.
-        vm->staticSpace = NULL;
-        vm->staticSpace = (struct NKValue *)nkiMallocArray(
-            vm, sizeof(struct NKValue), vm->staticAddressMask + 1);
+        vm->staticSpace = staticSpace;
+        vm->staticAddressMask = staticAddressMask;
     }
 
     // Read/write the static space.
@@ -734,7 +778,11 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
-    stack->indexMask = stack->capacity - 1;
+    // Thanks AFL!
+    if(stackSize > stackCapacity) {
+        nkiAddError(vm, "Stack size exceeds stack capacity.");
+        return nkfalse;
+    }
 
     // Make new stack space for read mode.
     if(!writeMode) {
@@ -762,11 +810,6 @@ nkbool nkiSerializeStack(
             sizeof(struct NKValue) * (stack->capacity));
     }
 
-    // Thanks AFL!
-    if(stack->capacity < stack->size) {
-        return nkfalse;
-    }
-
     NKI_SERIALIZE_DATA(
         stack->values,
         sizeof(struct NKValue) * (stack->size));
@@ -783,18 +826,40 @@ nkbool nkiSerializeGcState(
     // limits are not set, but right now I think we should go with the
     // most consistency between serialized and deserialized versions
     // of stuff.
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.lastGCPass);
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcInterval);
+    nkuint32_t lastGCPass = vm->gcInfo.lastGCPass;
+    nkuint32_t gcInterval = vm->gcInfo.gcInterval;
+    nkuint32_t gcCountdown = vm->gcInfo.gcCountdown;
+    nkuint32_t gcNewObjectInterval = vm->gcInfo.gcNewObjectInterval;
+    nkuint32_t gcNewObjectCountdown = vm->gcInfo.gcNewObjectCountdown;
+
+    NKI_SERIALIZE_BASIC(nkuint32_t, lastGCPass);
+    NKI_SERIALIZE_BASIC(nkuint32_t, gcInterval);
+    NKI_SERIALIZE_BASIC(nkuint32_t, gcCountdown);
+    NKI_SERIALIZE_BASIC(nkuint32_t, gcNewObjectInterval);
+    NKI_SERIALIZE_BASIC(nkuint32_t, gcNewObjectCountdown);
 
-    // gcInterval needs a hard limit here because the instruction
-    // count limit is only enforced on garbage collection intervals.
-    if(vm->gcInfo.gcInterval > 65536) {
-        vm->gcInfo.gcInterval = 65536;
-    }
+    if(!writeMode) {
+
+        // gcInterval needs a hard limit here because the instruction
+        // count limit is only enforced on garbage collection
+        // intervals. For the same reason the countdown must be within
+        // the interval, and neither can be zero.
+        if(gcInterval > 65536) {
+            gcInterval = 65536;
+        }
+        if(!gcInterval) {
+            gcInterval = 1;
+        }
+        if(!gcCountdown || gcCountdown > gcInterval) {
+            gcCountdown = gcInterval;
+        }
 
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectCountdown);
+        vm->gcInfo.lastGCPass = lastGCPass;
+        vm->gcInfo.gcInterval = gcInterval;
+        vm->gcInfo.gcCountdown = gcCountdown;
+        vm->gcInfo.gcNewObjectInterval = gcNewObjectInterval;
+        vm->gcInfo.gcNewObjectCountdown = gcNewObjectCountdown;
+    }
 
     return nktrue;
 }
@@ -809,6 +874,14 @@ nkbool nkiSerializeFunctionTable_inner(
 {
     nkuint32_t i;
 
+    // Clear out the internal function values, in case we don't actually
+    // find some of them.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            vm->externalFunctionTable[i].internalFunctionId.id = NK_INVALID_VALUE;
+        }
+    }
+
     for(i = 0; i < tmpExternalFunctionCount; i++) {
 
         struct NKVMExternalFunction tmpExternalFunc = {0};
@@ -831,11 +904,6 @@ nkbool nkiSerializeFunctionTable_inner(
 
             for(n = 0; n < vm->externalFunctionCount; n++) {
 
-                // Clear out the internal function value,
-                // in case we don't actually find
-                // something.
-                vm->externalFunctionTable[n].internalFunctionId.id = NK_INVALID_VALUE;
-
                 if(!nkiStrcmp(tmpExternalFunc.name, vm->externalFunctionTable[n].name)) {
                     functionIdMapping[i].id = n;
                     vm->externalFunctionTable[n].internalFunctionId =
@@ -955,6 +1023,7 @@ nkbool nkiSerializeGlobalsList(
         }
         nkiFree(vm, vm->globalVariables);
         vm->globalVariables = NULL;
+        vm->globalVariableCount = 0;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, globalVariableCount);
@@ -971,12 +1040,15 @@ nkbool nkiSerializeGlobalsList(
         nkiMemset(vm->globalVariables, 0,
             sizeof(vm->globalVariables[0]) * globalVariableCount);
 
-        vm->globalVariableCount = globalVariableCount;
     }
 
-    // Load/save each global name and index.
-    for(i = 0; i < vm->globalVariableCount; i++) {
+    // Load/save each global name and index. When reading, only those
+    // that were really read are counted, because the rest have no name.
+    for(i = 0; i < globalVariableCount; i++) {
         NKI_SERIALIZE_STRING(vm->globalVariables[i].name);
+        if(!writeMode) {
+            vm->globalVariableCount = i + 1;
+        }
         NKI_SERIALIZE_BASIC(nkuint32_t, vm->globalVariables[i].staticPosition);
     }
 
@@ -1274,12 +1346,15 @@ nkbool nkiSerializeSourceFileList(
         }
 
         vm->sourceFileList = sourceFileList;
-        vm->sourceFileCount = sourceFileCount;
     }
 
-    // Fill the list or write it out.
+    // Fill the list or write it out. When reading, only those that were
+    // really read are counted, because the rest have no name.
     for(i = 0; i < sourceFileCount; i++) {
         NKI_SERIALIZE_STRING(sourceFileList[i]);
+        if(!writeMode) {
+            vm->sourceFileCount = i + 1;
+        }
     }
 
     return nktrue;
@@ -1369,7 +1444,9 @@ nkbool nkiSerializeActiveCoroutines(
                 object->externalDataType.id == vm->internalObjectTypes.coroutine.id)
             {
                 executionContext = (struct NKVMExecutionContext*)object->externalData;
-            } else {
+            }
+
+            if(!executionContext) {
                 // Invalid coroutine object.
                 nkiAddError(vm, "Invalid object in coroutine chain.");
                 return nkfalse;
@@ -1395,12 +1472,9 @@ nkbool nkiSerializeActiveCoroutines(
             } else {
 
                 // Check parent to make sure we aren't making a loop.
-                if(chainEnd->parent) {
-                    nkiAddError(vm, "Corrupt coroutine chain.");
-                    return nkfalse;
-                }
-
-                if(chainEnd == &vm->rootExecutionContext) {
+                // Everything that's in the chain already, except for
+                // its end, has a parent.
+                if(executionContext->parent || executionContext == chainEnd) {
                     nkiAddError(vm, "Corrupt coroutine chain.");
                     return nkfalse;
                 }
diff --git a/src/nkvm.c b/src/nkvm.c
index cc81d79..e24708d 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -643,6 +643,8 @@ void nkiVmClearSourceFileList(struct NKVM *vm)
         nkiFree(vm, vm->sourceFileList);
         vm->sourceFileList = NULL;
     }
+
+    vm->sourceFileCount = 0;
 }
 
 struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
-- 
2.43.0


From 461a3f76d5eba2e6e1510cdc25e6f8567db1adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:30 +0000
Subject: [PATCH 39/49] fix: clearing the errors of an interactive session lost
 code and line numbers

Code that had run was overwritten although functions in it were still
referred to, and position markers of removed code stayed in the list.
---
 src/nkcompil.c | 16 ++++++++++++++++
 src/nkcompil.h |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index f925524..b153a07 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1195,6 +1195,8 @@ void nkiCompilerPartiallyFinalize(
         nkiCompilerAddInstructionSimple(cs, NK_OP_END, nkfalse);
         cs->instructionWriteIndex = oldWriteIndex;
     }
+
+    cs->finishedWriteIndex = cs->instructionWriteIndex;
 }
 
 void nkiCompilerFinalize(
@@ -1741,10 +1743,24 @@ void nkiCompilerClearReplErrorState(
     struct NKCompilerState *cs,
     nkuint32_t instructionPointerReset)
 {
+    // Keep the code that has been made executable. Functions in it may
+    // still be referred to.
+    if(instructionPointerReset < cs->finishedWriteIndex) {
+        instructionPointerReset = cs->finishedWriteIndex;
+    }
+
     // Reset instruction write index.
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
 
+    // Remove the position markers of the removed instructions.
+    while(cs->vm->positionMarkerCount &&
+        cs->vm->positionMarkerList[cs->vm->positionMarkerCount - 1].instructionIndex >=
+        cs->instructionWriteIndex)
+    {
+        cs->vm->positionMarkerCount--;
+    }
+
     // Re-init error state.
     nkiErrorStateDestroy(cs->vm);
     nkiErrorStateInit(cs->vm);
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 7ab9068..ea8cf2c 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -89,6 +89,10 @@ struct NKCompilerState
 
     nkuint32_t instructionWriteIndex;
 
+    // Instructions before this one have been made executable by
+    // nkiCompilerPartiallyFinalize().
+    nkuint32_t finishedWriteIndex;
+
     struct NKCompilerStateContext *context;
 
     struct NKToken *currentToken;
-- 
2.43.0


From 7964d6448a7d3fe250755f711a26c6cfc77ade9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:30 +0000
Subject: [PATCH 40/49] fix: scripts that failed to compile left variables and
 open blocks behind

---
 src/nkcompil.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index b153a07..774963c 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1234,6 +1234,10 @@ nkbool nkiCompilerCompileScript(
 {
     struct NKTokenList tokenList;
     nkbool success;
+    struct NKCompilerStateContext *oldContext = cs->context;
+    struct NKCompilerStateContextVariable *oldVariables =
+        cs->context->variables;
+    nkuint32_t oldStackFrameOffset = cs->context->stackFrameOffset;
 
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
@@ -1266,6 +1270,25 @@ nkbool nkiCompilerCompileScript(
     success = nkiCompilerCompileBlock(cs, nktrue) &&
         !nkiGetErrorCount(cs->vm);
 
+    // None of a script that does not compile will ever run, so forget
+    // the blocks it left open and the variables it declared.
+    if(!success) {
+
+        while(cs->context != oldContext) {
+            nkiCompilerPopContext(cs);
+        }
+
+        while(cs->context->variables != oldVariables) {
+            struct NKCompilerStateContextVariable *var =
+                cs->context->variables;
+            cs->context->variables = var->next;
+            nkiFree(cs->vm, var->name);
+            nkiFree(cs->vm, var);
+        }
+
+        cs->context->stackFrameOffset = oldStackFrameOffset;
+    }
+
     cs->currentToken = NULL;
     cs->currentLineNumber = 0;
     cs->currentFileIndex = NK_INVALID_VALUE;
-- 
2.43.0


From c14ff4cb8646534d531bcbe4515aac45c64130b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 41/49] fix: empty script files and directories ran
 uninitialised memory as a script

---
 src/interp/main.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index 7866673..18d576b 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -125,6 +125,13 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
     nkuint32_t scriptLen = 0;
     char *buf = (char*)malloc(bufSize);
 
+    if(!buf) {
+        return NULL;
+    }
+
+    // There may be nothing to read at all.
+    buf[0] = 0;
+
     // Use a local variable instead of the argument if the argument
     // was NULL.
     if(!scriptSize) {
@@ -166,6 +173,13 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
         }
     }
 
+    // Handle things that can be opened but not read, like directories.
+    if(ferror(in)) {
+        free(buf);
+        *scriptSize = 0;
+        return NULL;
+    }
+
     return buf;
 }
 
-- 
2.43.0


From 958e51ce5c87664506b9c8c7396f908c4f3cd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 42/49] fix: loadFile on a directory or a pipe crashed the
 interpreter

---
 src/interp/main.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/interp/main.c b/src/interp/main.c
index 18d576b..e82ebdd 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -271,7 +271,9 @@ void loadFile(struct NKVMFunctionCallbackData *data)
         data->vm, &data->arguments[0]);
 
     FILE *inFile = fopen(filename, "rb");
-    size_t fileSize;
+    long fileSize;
+    size_t readSize;
+    char *buf = NULL;
 
     if(!inFile) {
         nkxAddError(data->vm, "Cannot open file.");
@@ -282,10 +284,19 @@ void loadFile(struct NKVMFunctionCallbackData *data)
     fileSize = ftell(inFile);
     fseek(inFile, 0, SEEK_SET);
 
-    char *buf = malloc(fileSize + 1);
+    // Directories and pipes have no usable size.
+    if(fileSize >= 0 && fileSize < NK_UINT_MAX) {
+        buf = malloc((size_t)fileSize + 1);
+    }
+
+    if(!buf) {
+        fclose(inFile);
+        nkxAddError(data->vm, "Cannot read file.");
+        return;
+    }
 
-    fread(buf, fileSize, 1, inFile);
-    buf[fileSize] = 0;
+    readSize = fread(buf, 1, fileSize, inFile);
+    buf[readSize] = 0;
 
     fclose(inFile);
 
-- 
2.43.0


From 0458853f20a282b65546f8c02b85890f57b34ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 43/49] fix: an allocation failure in an interactive session
 freed the input twice

---
 src/interp/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index e82ebdd..c2d85c6 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -405,6 +405,7 @@ int main(int argc, char *argv[])
             // Attempt to compile new code.
             nkxCompilerCompileScript(compiler, scriptText, "<stdin>");
             free(scriptText);
+            scriptText = NULL;
 
             // Finalize and run.
             if(checkNoErrors(vm)) {
-- 
2.43.0


From 822ce52c432a62b9afa29918c4ee8a964b439bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 44/49] fix: scripts longer than 4294967295 instructions ended
 early without an error

---
 src/interp/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/interp/main.c b/src/interp/main.c
index c2d85c6..658cc8d 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -222,6 +222,15 @@ int checkNoErrors(struct NKVM *vm)
     return !nkxVmHasErrors(vm);
 }
 
+// Run until the program ends or has an error. A single call to
+// nkxVmIterate() may stop before that.
+void runProgram(struct NKVM *vm)
+{
+    while(!nkxVmHasErrors(vm) && !nkxVmProgramHasEnded(vm)) {
+        nkxVmIterate(vm, NK_UINT_MAX);
+    }
+}
+
 // "print" function callback.
 void printFunc(struct NKVMFunctionCallbackData *data)
 {
@@ -410,7 +419,7 @@ int main(int argc, char *argv[])
             // Finalize and run.
             if(checkNoErrors(vm)) {
                 nkxCompilerPartiallyFinalize(compiler);
-                nkxVmIterate(vm, NK_UINT_MAX);
+                runProgram(vm);
             }
 
             // Dump errors, if necessary.
@@ -456,7 +465,7 @@ int main(int argc, char *argv[])
     }
 
     // Run the program.
-    nkxVmIterate(vm, NK_UINT_MAX);
+    runProgram(vm);
 
     // Check for runtime errors.
     if(!checkNoErrors(vm)) {
-- 
2.43.0


From 0b91d411b1e223f3624d0c99e519c43ee8ffe9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 45/49] fix: machines created by several threads at once raced
 on the opcode tables

---
 src/nkcompil.h |   2 +-
 src/nkvm.c     | 206 ++++++++++++++++++++++++-------------------------
 2 files changed, 102 insertions(+), 106 deletions(-)

diff --git a/src/nkcompil.h b/src/nkcompil.h
index ea8cf2c..fdfd6dd 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -105,7 +105,7 @@ struct NKCompilerState
     nkuint32_t staticVariableCount;
 };
 
-extern nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT];
+extern const nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT];
 
 // ----------------------------------------------------------------------
 // Creation and cleanup.
diff --git a/src/nkvm.c b/src/nkvm.c
index e24708d..95e06d8 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -47,111 +47,104 @@
 // Static opcode table setup.
 
 typedef void (*NKVMOpcodeCall)(struct NKVM *vm);
-static NKVMOpcodeCall nkiOpcodeTable[NK_OPCODE_PADDEDCOUNT];
-static const char *nkiOpcodeNameTable[NK_OPCODE_PADDEDCOUNT];
-
-// Change to the stack offset for each instruction. For example, POP
-// will be -1. PUSHLITERAL_* will be +1. Be aware that some opcodes
-// (like POPN and CALL) will adjust by some dynamic amount that can't
-// be hardcoded here. They just need special care when generating the
-// code, and have a value of zero here. Some instructions do weird
-// shit to the stack, like RETURN. That's also got zero stack offset
-// here.
-nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT];
-
-#define NK_SETUP_OP(x, y, z)                                            \
-    do {                                                                \
-        nkiOpcodeNameTable[(x)] = (const char*)#x + nkiStrlen("NK_OP_"); \
-        nkiOpcodeTable[(x)] = (y);                                      \
-        nkiCompilerStackOffsetTable[(x)] = (z);                         \
-    } while(0);
-
-static void nkiVmInitOpcodeTable(void)
-{
-    static nkbool opcodeTableInitComplete = nkfalse;
-    if(opcodeTableInitComplete) {
-        return;
-    }
-
-    assert(NK_OPCODE_PADDEDCOUNT >= NK_OPCODE_REALCOUNT);
-
-    NK_SETUP_OP(NK_OP_ADD,                    nkiOpcode_add,                    -1);
-    NK_SETUP_OP(NK_OP_SUBTRACT,               nkiOpcode_subtract,               -1);
-    NK_SETUP_OP(NK_OP_MULTIPLY,               nkiOpcode_multiply,               -1);
-    NK_SETUP_OP(NK_OP_DIVIDE,                 nkiOpcode_divide,                 -1);
-    NK_SETUP_OP(NK_OP_MODULO,                 nkiOpcode_modulo,                 -1);
-    NK_SETUP_OP(NK_OP_NEGATE,                 nkiOpcode_negate,                 0);
-    NK_SETUP_OP(NK_OP_PUSHLITERAL_INT,        nkiOpcode_pushLiteral_int,        1);
-    NK_SETUP_OP(NK_OP_PUSHLITERAL_FLOAT,      nkiOpcode_pushLiteral_float,      1);
-    NK_SETUP_OP(NK_OP_PUSHLITERAL_STRING,     nkiOpcode_pushLiteral_string,     1);
-    NK_SETUP_OP(NK_OP_PUSHLITERAL_FUNCTIONID, nkiOpcode_pushLiteral_functionId, 1);
-    NK_SETUP_OP(NK_OP_NOP,                    nkiOpcode_nop,                    0);
-    NK_SETUP_OP(NK_OP_POP,                    nkiOpcode_pop,                    -1);
-    NK_SETUP_OP(NK_OP_POPN,                   nkiOpcode_popN,                   0);
-
-    NK_SETUP_OP(NK_OP_STACKPEEK,              nkiOpcode_stackPeek,              0);
-    NK_SETUP_OP(NK_OP_STACKPOKE,              nkiOpcode_stackPoke,              -1);
-
-    NK_SETUP_OP(NK_OP_STATICPEEK,             nkiOpcode_staticPeek,             0);
-    NK_SETUP_OP(NK_OP_STATICPOKE,             nkiOpcode_staticPoke,             -1);
-
-    NK_SETUP_OP(NK_OP_JUMP_RELATIVE,          nkiOpcode_jumpRelative,           -1);
-
-    NK_SETUP_OP(NK_OP_CALL,                   nkiOpcode_call,                   0);
-    NK_SETUP_OP(NK_OP_RETURN,                 nkiOpcode_return,                 0);
-
-    NK_SETUP_OP(NK_OP_END,                    nkiOpcode_end,                    0);
-
-    NK_SETUP_OP(NK_OP_JUMP_IF_ZERO,           nkiOpcode_jz,                     -2);
-
-    NK_SETUP_OP(NK_OP_GREATERTHAN,            nkiOpcode_gt,                     -1);
-    NK_SETUP_OP(NK_OP_LESSTHAN,               nkiOpcode_lt,                     -1);
-    NK_SETUP_OP(NK_OP_GREATERTHANOREQUAL,     nkiOpcode_ge,                     -1);
-    NK_SETUP_OP(NK_OP_LESSTHANOREQUAL,        nkiOpcode_le,                     -1);
-    NK_SETUP_OP(NK_OP_EQUAL,                  nkiOpcode_eq,                     -1);
-    NK_SETUP_OP(NK_OP_NOTEQUAL,               nkiOpcode_ne,                     -1);
-    NK_SETUP_OP(NK_OP_EQUALWITHSAMETYPE,      nkiOpcode_eqsametype,             -1);
-    NK_SETUP_OP(NK_OP_NOT,                    nkiOpcode_not,                    0);
-
-    NK_SETUP_OP(NK_OP_AND,                    nkiOpcode_and,                    -1);
-    NK_SETUP_OP(NK_OP_OR,                     nkiOpcode_or,                     -1);
-
-    NK_SETUP_OP(NK_OP_OBJECTFIELDGET,         nkiOpcode_objectFieldGet,         -1);
-    NK_SETUP_OP(NK_OP_OBJECTFIELDSET,         nkiOpcode_objectFieldSet,         -2);
-
-    NK_SETUP_OP(NK_OP_CREATEOBJECT,           nkiOpcode_createObject,           1);
-
-    NK_SETUP_OP(NK_OP_PREPARESELFCALL,        nkiOpcode_prepareSelfCall,        0);
-    NK_SETUP_OP(NK_OP_OBJECTFIELDGET_NOPOP,   nkiOpcode_objectFieldGet_noPop,   0);
-
-    NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
-    NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
-    NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
-
-    NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-    NK_SETUP_OP(NK_OP_LEN,                    nkiOpcode_len,                    0);
-
-    // Fill in the rest of the opcode table with no-ops. We just want
-    // to pad up to a power of two so we can easily mask instructions
-    // instead of branching to make sure they're valid.
-    {
-        nkuint32_t i;
-        for(i = NK_OPCODE_REALCOUNT; i < NK_OPCODE_PADDEDCOUNT; i++) {
-            nkiOpcodeNameTable[i] = "INVALID";
-            nkiOpcodeTable[i] = nkiOpcode_nop;
-            nkiCompilerStackOffsetTable[i] = 0;
-        }
-    }
-
-    // Quick sanity check.
-    assert(sizeof(nkuint32_t) == 4);
-    assert(sizeof(nkint32_t) == 4);
-    assert(sizeof(nkbool) == 1);
-
-    opcodeTableInitComplete = nktrue;
-}
+// All opcodes, in the same order as in enum NKOpcode.
+//
+// The last parameter is the change to the stack offset for each
+// instruction. For example, POP will be -1. PUSHLITERAL_* will be
+// +1. Be aware that some opcodes (like POPN and CALL) will adjust by
+// some dynamic amount that can't be hardcoded here. They just need
+// special care when generating the code, and have a value of zero
+// here. Some instructions do weird shit to the stack, like
+// RETURN. That's also got zero stack offset here.
+#define NK_OPCODE_LIST(X) \
+    X(NOP,                    nkiOpcode_nop,                    0)  \
+    X(ADD,                    nkiOpcode_add,                    -1) \
+    X(SUBTRACT,               nkiOpcode_subtract,               -1) \
+    X(MULTIPLY,               nkiOpcode_multiply,               -1) \
+    X(DIVIDE,                 nkiOpcode_divide,                 -1) \
+    X(NEGATE,                 nkiOpcode_negate,                 0)  \
+    X(MODULO,                 nkiOpcode_modulo,                 -1) \
+    X(PUSHLITERAL_INT,        nkiOpcode_pushLiteral_int,        1)  \
+    X(PUSHLITERAL_FLOAT,      nkiOpcode_pushLiteral_float,      1)  \
+    X(PUSHLITERAL_STRING,     nkiOpcode_pushLiteral_string,     1)  \
+    X(PUSHLITERAL_FUNCTIONID, nkiOpcode_pushLiteral_functionId, 1)  \
+    X(POP,                    nkiOpcode_pop,                    -1) \
+    X(POPN,                   nkiOpcode_popN,                   0)  \
+    X(STACKPEEK,              nkiOpcode_stackPeek,              0)  \
+    X(STACKPOKE,              nkiOpcode_stackPoke,              -1) \
+    X(STATICPOKE,             nkiOpcode_staticPoke,             -1) \
+    X(STATICPEEK,             nkiOpcode_staticPeek,             0)  \
+    X(JUMP_RELATIVE,          nkiOpcode_jumpRelative,           -1) \
+    X(CALL,                   nkiOpcode_call,                   0)  \
+    X(RETURN,                 nkiOpcode_return,                 0)  \
+    X(END,                    nkiOpcode_end,                    0)  \
+    X(JUMP_IF_ZERO,           nkiOpcode_jz,                     -2) \
+    X(GREATERTHAN,            nkiOpcode_gt,                     -1) \
+    X(LESSTHAN,               nkiOpcode_lt,                     -1) \
+    X(GREATERTHANOREQUAL,     nkiOpcode_ge,                     -1) \
+    X(LESSTHANOREQUAL,        nkiOpcode_le,                     -1) \
+    X(EQUAL,                  nkiOpcode_eq,                     -1) \
+    X(NOTEQUAL,               nkiOpcode_ne,                     -1) \
+    X(EQUALWITHSAMETYPE,      nkiOpcode_eqsametype,             -1) \
+    X(NOT,                    nkiOpcode_not,                    0)  \
+    X(AND,                    nkiOpcode_and,                    -1) \
+    X(OR,                     nkiOpcode_or,                     -1) \
+    X(CREATEOBJECT,           nkiOpcode_createObject,           1)  \
+    X(OBJECTFIELDGET,         nkiOpcode_objectFieldGet,         -1) \
+    X(OBJECTFIELDSET,         nkiOpcode_objectFieldSet,         -2) \
+    X(OBJECTFIELDGET_NOPOP,   nkiOpcode_objectFieldGet_noPop,   0)  \
+    X(PREPARESELFCALL,        nkiOpcode_prepareSelfCall,        0)  \
+    X(PUSHNIL,                nkiOpcode_pushNil,                1)  \
+    X(COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1)  \
+    X(COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0)  \
+    X(COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1) \
+    X(COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0)  \
+    X(LEN,                    nkiOpcode_len,                    0)
+
+// Make sure that the list above matches the enum.
+#define NK_OPCODE_ENTRY(x, y, z) nkiOpcodeIndex_##x,
+enum NKOpcodeListIndex { NK_OPCODE_LIST(NK_OPCODE_ENTRY) nkiOpcodeIndex_count };
+#undef NK_OPCODE_ENTRY
+#define NK_OPCODE_ENTRY(x, y, z) \
+    typedef char NKOpcodeListCheck_##x[(int)nkiOpcodeIndex_##x == (int)NK_OP_##x ? 1 : -1];
+NK_OPCODE_LIST(NK_OPCODE_ENTRY)
+#undef NK_OPCODE_ENTRY
+typedef char NKOpcodeListCheck[(int)nkiOpcodeIndex_count == (int)NK_OPCODE_REALCOUNT ? 1 : -1];
+
+// These tables are constant, because they are shared between all VMs,
+// which may be on different threads. They are filled up with no-ops,
+// because we want to pad up to a power of two so we can easily mask
+// instructions instead of branching to make sure they're valid.
+
+#define NK_OPCODE_ENTRY(x, y, z) y,
+static const NKVMOpcodeCall nkiOpcodeTable[NK_OPCODE_PADDEDCOUNT] = {
+    NK_OPCODE_LIST(NK_OPCODE_ENTRY)
+    nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop,
+    nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop,
+    nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop,
+    nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop,
+    nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop, nkiOpcode_nop,
+    nkiOpcode_nop
+};
+#undef NK_OPCODE_ENTRY
+
+#define NK_OPCODE_ENTRY(x, y, z) #x,
+static const char *const nkiOpcodeNameTable[NK_OPCODE_PADDEDCOUNT] = {
+    NK_OPCODE_LIST(NK_OPCODE_ENTRY)
+    "INVALID", "INVALID", "INVALID", "INVALID", "INVALID", "INVALID",
+    "INVALID", "INVALID", "INVALID", "INVALID", "INVALID", "INVALID",
+    "INVALID", "INVALID", "INVALID", "INVALID", "INVALID", "INVALID",
+    "INVALID", "INVALID", "INVALID"
+};
+#undef NK_OPCODE_ENTRY
+
+#define NK_OPCODE_ENTRY(x, y, z) z,
+const nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT] = {
+    NK_OPCODE_LIST(NK_OPCODE_ENTRY)
+    0
+};
+#undef NK_OPCODE_ENTRY
 
 const char *nkiVmGetOpcodeName(enum NKOpcode op)
 {
@@ -209,7 +202,10 @@ void nkiVmInit(struct NKVM *vm)
     vm->externalFunctionCount = 0;
     vm->externalFunctionTable = NULL;
 
-    nkiVmInitOpcodeTable();
+    // Quick sanity check.
+    assert(sizeof(nkuint32_t) == 4);
+    assert(sizeof(nkint32_t) == 4);
+    assert(sizeof(nkbool) == 1);
 
     nkiErrorStateInit(vm);
     nkiVmInitExecutionContext(vm, &vm->rootExecutionContext);
-- 
2.43.0


From 11eaca8c815d77d90f47b16f30c8949944b79af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:36 +0000
Subject: [PATCH 46/49] fix: initialize every field of position markers when a
 load is cut short

---
 src/nksave.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nksave.c b/src/nksave.c
index 552674d..28751e7 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -1385,6 +1385,7 @@ nkbool nkiSerializePositionMarkerList(
         for(i = 0; i < positionMarkerCount; i++) {
             positionMarkerList[i].fileIndex = NK_INVALID_VALUE;
             positionMarkerList[i].lineNumber = 0;
+            positionMarkerList[i].actualLineNumber = 0;
             positionMarkerList[i].instructionIndex = NK_INVALID_VALUE;
         }
 
-- 
2.43.0


From 3ba0a255268a92e48b983b007c75b04605e1e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:36 +0000
Subject: [PATCH 47/49] fix: let an allocation failure in a call on a callable
 object abort the call

---
 src/nkopcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 7247f3b..60234ed 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -501,12 +501,12 @@ void nkiOpcode_call(struct NKVM *vm)
             }
 
             // Check for the function call field.
-            nkxValueSetString(vm, &index, "_exec");
+            nkiValueSetString(vm, &index, "_exec");
             functionIdValue = nkiVmObjectFindOrAddEntry_public(
                 vm, objectIdValue, &index, nktrue);
 
             // Check for the data field.
-            nkxValueSetString(vm, &index, "_data");
+            nkiValueSetString(vm, &index, "_data");
             callableObjectData = nkiVmObjectFindOrAddEntry_public(
                 vm, objectIdValue, &index, nktrue);
 
-- 
2.43.0


From b17a46e38a4a39ba11d06b307994aabd893554bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:31 +0000
Subject: [PATCH 48/49] fix: an error in a coroutine inside a call-back left
 the coroutine active

---
 src/nkfunc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index f9623c3..e50ef25 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -151,6 +151,19 @@ void nkiVmCallFunction(
             nkiVmIterate(vm);
         }
 
+        // An error inside a coroutine leaves that coroutine active.
+        // Get back to the context that the call was made from, so its
+        // stack is the one to be cleaned up, and so that more errors
+        // from the caller are reported at the caller's position.
+        while(vm->currentExecutionContext != context &&
+            vm->currentExecutionContext->parent)
+        {
+            struct NKVMExecutionContext *failed = vm->currentExecutionContext;
+            vm->currentExecutionContext = failed->parent;
+            failed->parent = NULL;
+            failed->coroutineState = NK_COROUTINE_INVALID;
+        }
+
         // Save return value.
         if(returnValue) {
             *returnValue = *nkiVmStackPop(vm);
-- 
2.43.0


From da7cdb98a63173254c612caeba33daa76e6a1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:31 +0000
Subject: [PATCH 49/49] fix: an image without functions could not be loaded

---
 src/nksave.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 28751e7..455de3e 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -929,10 +929,6 @@ nkbool nkiSerializeFunctionTable_inner(
                     vm, sizeof(struct NKVMFunction),
                     tmpFunctionCount);
 
-            if(!newTable) {
-                return nkfalse;
-            }
-
             nkiFree(vm, vm->functionTable);
             vm->functionTable = newTable;
             vm->functionCount = tmpFunctionCount;
-- 
2.43.0

