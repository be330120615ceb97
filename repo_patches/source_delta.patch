From e2bb6c861c655c8cc74448fcb54477d8ca36e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 001/165] fix: SET /A crashes with SIGFPE on an integer
 division or modulo by 0

---
 libfasteval/lib/parser.y | 14 ++++++++++++--
 pbat/command/pBat_Set.c  | 15 +++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..c2747a0 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -41,6 +41,7 @@
  */
 
 #include <stdlib.h>
+#include <limits.h>
 #include <math.h>
 
 #include "fasteval.h"
@@ -88,6 +89,12 @@ extern void input_reset (void);
     if (!(result).is_double) \
         (result).i = (a).i op (b).i; \
     (result).d = (double)((int)(a).d op  (int)(b).d);
+
+/* Whether a 'op' b has an integer result, for op / and %. If it has none
+   (division by 0), the operation is performed on doubles. */
+#define INT_DIVISIBLE(a, b) \
+    (!(a).is_double && !(b).is_double && (b).i != 0 \
+        && !((a).i == LLONG_MIN && (b).i == -1))
 %}
 
 /* Parser semantic values type.  */
@@ -140,12 +147,15 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+  $$.is_double = !INT_DIVISIBLE($1, $3);
+  if (!($$.is_double))
+    $$.i = $1.i / $3.i;
+  $$.d = $1.d / $3.d;
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
-  $$.is_double  = $1.is_double || $3.is_double;
+  $$.is_double = !INT_DIVISIBLE($1, $3);
   if (!($$.is_double))
     $$.i = $1.i % $3.i;
   $$.d = fmod($1.d, $3.d);
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..826dc6b 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -431,12 +431,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 #define OPERATE_INT(op1, op, op2) \
     (double)(((int)op1) op ((int)(op2)))
 
-#define OPERATE(op1, op, op2, mode) \
-    ((!mode) ? \
-        (OPERATE_INT(op1, op, op2)) \
-        : \
-        (op1 op op2))
-
 
 	switch (cLeftAssign) {
 
@@ -458,8 +452,13 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
 				case '/':
-					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+                    /* there is no integer division by 0, use floats to
+                       get either inf or nan. The dividend is converted to
+                       long long because INT_MIN / -1 overflows */
+                    if (!fmode && (int)dResult != 0)
+                        dVal = (double)((long long)dVal / (int)dResult);
+                    else
+                        dVal /= dResult;
 					break;
 
                 case '%':
-- 
2.43.0


From 0545f33817141e33ad3bfa4db2ec6f0fa81d0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 002/165] fix: give SET /A's binary operators the precedence
 its manual page documents

---
 libfasteval/lib/parser.y | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index c2747a0..70cb2a6 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -111,8 +111,11 @@ extern void input_reset (void);
 /* Grammar terminal symbols.  */
 %token <number> NUMBER CONSTANT
 %token <name> FUNCTION VARIABLE
-%left '|' 'o' '^'
-%left '&' 'a'
+%left 'o'
+%left 'a'
+%left '|'
+%left '^'
+%left '&'
 %left '>' '<'
 %left '-' '+'
 %left '*' '/' '%'
-- 
2.43.0


From 28ab3eccc456af33db6a2dfab3706fedd9b51e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 003/165] fix: SET /A rejects the documented ! operator

---
 libfasteval/lib/scanner.l | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index 87e4b08..cf958c0 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -74,8 +74,8 @@ integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
 function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
-nodelim	   [^+\-*%/&>~<%\|=()^\n\t ]
-nodelimnb  [^+\-*%/&>~<%\|=()^\n\t 0-9]
+nodelim	   [^!+\-*%/&>~<%\|=()^\n\t ]
+nodelimnb  [^!+\-*%/&>~<%\|=()^\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
 %%
 
@@ -115,6 +115,10 @@ identifier {nodelim}*{nodelimnb}*{nodelim}*
 		return '~';
 }
 
+"!" {
+  return '!';
+}
+
 ">>" {
   return '>';
 }
-- 
2.43.0


From 5b97c5ed76155807709102b200f5c2b017ded443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 004/165] fix: SET /A rejects the documented log10 function

---
 libfasteval/lib/fasteval.c | 4 ++--
 libfasteval/lib/scanner.l  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libfasteval/lib/fasteval.c b/libfasteval/lib/fasteval.c
index 2fba6d9..a0ba2b4 100644
--- a/libfasteval/lib/fasteval.c
+++ b/libfasteval/lib/fasteval.c
@@ -81,7 +81,7 @@ double evaluate_function(const char *name, double arg)
     "abs", "acos", "acosh", "acot", "acoth", "acsc",
     "acsch", "asec", "asech", "asin", "asinh", "atan",
     "atanh", "cos", "cosh", "cot", "coth", "csc", "csch",
-    "delta", "erf", "exp", "log", "nandelta", "sec", "sech",
+    "delta", "erf", "exp", "log", "log10", "nandelta", "sec", "sech",
     "sin", "sinh", "sqrt", "step", "tan", "tanh",
 	};
 
@@ -89,7 +89,7 @@ double evaluate_function(const char *name, double arg)
     fabs, acos, acosh, math_acot, math_acoth, math_acsc,
     math_acsch, math_asec, math_asech, asin, asinh, atan,
     atanh, cos, cosh, math_cot, math_coth, math_csc, math_csch,
-    math_delta, erf, exp, log, math_nandelta, math_sec, math_sech,
+    math_delta, erf, exp, log, log10, math_nandelta, math_sec, math_sech,
     sin, sinh, sqrt, math_step, tan, tanh,
   };
 
diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index cf958c0..cdb8f8f 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -73,7 +73,7 @@ digit [0-9]
 integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
-function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
+function "exp"|"log"|"log10"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
 nodelim	   [^!+\-*%/&>~<%\|=()^\n\t ]
 nodelimnb  [^!+\-*%/&>~<%\|=()^\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
-- 
2.43.0


From 68e5d10dab789e7fdb7461f12220202291c27803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 005/165] fix: SET /A does not support the <<= and >>=
 assignments

---
 pbat/command/pBat_Set.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 826dc6b..a75d215 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -524,6 +524,27 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 			break;
 
 
+		case '<':
+		case '>':
+
+			/* these are only operators when they are doubled */
+			if (lpVarName != (lpEqual-1)
+                && *(lpEqual-2) == cLeftAssign) {
+
+                *(lpEqual-2)='\0';
+
+                pBat_AdjustVarName(lpVarName);
+                dVal=_pBat_SetGetVar(lpVarName);
+
+                if (cLeftAssign == '<')
+                    dVal = OPERATE_INT(dVal, <<, dResult);
+                else
+                    dVal = OPERATE_INT(dVal, >>, dResult);
+
+                break;
+
+			}
+
 		default:
 			dVal=dResult;
 
-- 
2.43.0


From f61c10c9482b4a7bb75c433da0370bde48e835ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 006/165] fix: SET /A ||= and &&= read the wrong variable

---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index a75d215..abcb2e5 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -490,9 +490,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			*(lpEqual-1)='\0';
 
-			pBat_AdjustVarName(lpVarName);
-			dVal=_pBat_SetGetVar(lpVarName);
-
 			if (lpVarName != (lpEqual-1)) {
 
 				if (*(lpEqual-2) == cLeftAssign) {
@@ -504,6 +501,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			}
 
+			pBat_AdjustVarName(lpVarName);
+			dVal=_pBat_SetGetVar(lpVarName);
+
 			switch (cLeftAssign) {
 
 				case '|':
-- 
2.43.0


From 4f241b3faf142274fd5aceea43201a185605f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 007/165] fix: SET /A *= and %= yield a negative zero on
 integers

---
 pbat/command/pBat_Set.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index abcb2e5..18583fd 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -550,6 +550,10 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 	}
 
+	/* there is no negative zero among integers */
+	if (!fmode && dVal == 0)
+		dVal = 0;
+
 	snprintf(lpResult, sizeof(lpResult), "%.14g", dVal);
 
     if (!bIsScript)
-- 
2.43.0


From c83a47e2a91511e1bc244db9b0fc57a169c453ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 008/165] fix: shift into the sign bit in the string cache

---
 pbat/core/pBat_EsCache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_EsCache.c b/pbat/core/pBat_EsCache.c
index 89007c4..fde6324 100644
--- a/pbat/core/pBat_EsCache.c
+++ b/pbat/core/pBat_EsCache.c
@@ -30,7 +30,7 @@
 
 #define ESTR_STATUS_ELEM_COUNT (ESTR_CACHE_SIZE / 32)
 
-#define BIT(x) (1 << (x))
+#define BIT(x) ((uint32_t)1 << (x))
 
 #define STATUS_ON(x) lpecCache->lpbStatus[(x) / 32] |= BIT(x % 32)
 #define STATUS_OFF(x) lpecCache->lpbStatus[(x) / 32] &= ~BIT(x % 32)
-- 
2.43.0


From 394662f055f41393d480afb1cb8aee2dc79bf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 009/165] fix: negative positions and zero lengths in
 %var:~nb1,nb2%

---
 pbat/core/pBat_Var.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..3cf2356 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -133,7 +133,8 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 	int         iVarState=0, /* the status of the var interpreter 1 means replace, 2 means cut */
 	            iTotalLen,
 	            iBegin=0, /* the start position */
-	            iLen=0; /* the lenght to be cut */
+	            iLen=0, /* the lenght to be cut */
+	            bLen=FALSE; /* has a lenght been specified ? */
 
 	char        cCharSave=0; /* the backup of the character replaced by '\0' */;
 
@@ -162,6 +163,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 				*lpNextToken='\0';
 				lpNextToken++;
 				iLen=atol(lpNextToken);
+				bLen=(*lpNextToken != '\0');
 			}
 
 			iBegin=atol(lpToken);
@@ -230,21 +232,9 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
         iTotalLen=strlen(lpVarContent);
 #endif // PBAT_USE_LIBCU8
 
-		if (iBegin < 0) {
-
-            if (iLen > 0) {
-
-                if ( (iTotalLen+iBegin) >= iLen)
-                    iBegin = iTotalLen + iBegin;
-
-            } else {
-
-                if ( iBegin <= iLen )
-                    iBegin = iTotalLen + iBegin;
-
-            }
-
-        }
+		/* negative positions are counted from the end of the string */
+		if (iBegin < 0)
+            iBegin += iTotalLen;
 
         if (iBegin < 0 || iBegin > iTotalLen) {
 
@@ -257,7 +247,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 		} else if (iLen > 0) {
 
-			if ((iBegin+iLen)<= iTotalLen) {
+			if (iLen <= iTotalLen-iBegin) {
 				/* if the strings is right */
 
 #ifdef PBAT_USE_LIBCU8
@@ -274,9 +264,14 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
                 lpVarContent = "";
 
 
+		} else if (bLen && iLen == 0) {
+
+			/* a length of 0 was explicitly requested */
+			lpVarContent = "";
+
 		} else if (iLen <= 0) {
 
-			if (abs(iLen) <= iTotalLen-iBegin) {
+			if (iLen >= iBegin-iTotalLen) {
 
 				/* if the string is right too
 				   but the lenght given is negative, such as -3
-- 
2.43.0


From c64d1f08edac3b28f6c1b3bb29dcb112f7ec6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 010/165] fix: replacing an empty string in a variable never
 ends

---
 libpbat/estr/pBat_Estr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..c95ebd9 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -415,7 +415,13 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    /* an empty pattern would match forever */
+    if (iLength == 0)
+        return 0;
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=strstr(lpBuffer, ptrPattern))) {
 
-- 
2.43.0


From cfee3b920db5a73db4c2b15f24634fdd0f6994f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 011/165] fix: arguments of external commands are expanded
 twice

---
 pbat/core/pBat_Args.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 83ab27f..0bbd5cc 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -303,9 +303,7 @@ struct PARAMLIST* pBat_GetParamList(char* lpLine)
         }
 
         next->next = NULL;
-        next->param = lpParam;
-
-		pBat_DelayedExpand(lpParam);
+        next->param = lpParam; /* pBat_GetNextParameterEs() expanded it */
 
 		lpParam=pBat_EsInit_Cached();
 
-- 
2.43.0


From 3fa93e5e6ed223a79b563354405cea811e353c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 012/165] fix: output of internal commands appears after the
 output of later programs

---
 pbat/core/pBat_Exec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..73155ed 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -42,6 +42,11 @@ int pBat_ExecuteFile(EXECINFO* info)
     int error = 0,
                 ret;
 
+    /* the program writes to the same files as we do, what has
+       already been printed must get there first */
+    fflush(fOutput);
+    fflush(fError);
+
     /* first try RunFile() */
     ret = pBat_RunFile(info, &error);
 
-- 
2.43.0


From e60ea4178f373e57d539af21974a3655b7f23856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 013/165] fix: a program that cannot be executed has the
 pending output printed twice

---
 pbat/core/pBat_Exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 73155ed..14f576f 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -338,7 +338,8 @@ int pBat_RunFile(EXECINFO* info, int* error)
             write(fds[1], "x", 1);
             close(fds[1]);
 
-			exit(-1);
+			/* exit() would flush copies of the parent's streams */
+			_exit(-1);
 
 
 		}
-- 
2.43.0


From b70af4ffa3c6ea7aedc643617c2b4a79ed588cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 014/165] fix: trailing blanks of inherited environment
 variables are lost

---
 pbat/core/pBat_Env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..5cabc14 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -193,10 +193,10 @@ error:
 
         }
 
-        pBat_AdjustVarName(pStr);
-
         *(pCh++) = '\0';
 
+        pBat_AdjustVarName(pStr);
+
         pBuf[nb] = pBat_AllocEnvVar(pStr, pCh);
 
         free(pStr);
-- 
2.43.0


From bb2388982d9807c5d66804ff083b470c893a39bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 015/165] fix: variables get lost once another one has been
 removed

---
 pbat/core/pBat_Env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 5cabc14..7720348 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -36,8 +36,9 @@ int pBat_EnvCompName(const void* p1, const void* p2)
 {
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
+    /* unused entries are put at the end */
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar2->name != NULL) - (pVar1->name != NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
-- 
2.43.0


From b8bc0ec1a9af97d307de2246bb302b71093596d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 016/165] fix: procedure-local variables are not found among
 variables in lower case

---
 pbat/core/pBat_Env.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 7720348..0b37926 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -22,6 +22,7 @@
  #define _XOPEN_SOURCE 700
  #endif
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -50,7 +51,8 @@ int pBat_EnvCompLocal(const void* p1, const void* p2)
     if ((pVar2->name == NULL))
         return - PBAT_ENV_LOCAL_PREFIX;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    /* same order as pBat_EnvCompName() */
+    return PBAT_ENV_LOCAL_PREFIX - tolower((unsigned char)*(pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From b7eb7ee6e75956b6b2bb5a9e8e5ded9d5afcfaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 017/165] fix: programs still get environment variables that
 have been removed

---
 pbat/core/pBat_Env.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 0b37926..32d41e9 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -406,6 +406,14 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+    #if !defined(WIN32)
+    /* do not keep variables that have been removed since startup */
+    static char* lpNoEnv[] = {NULL};
+    extern char** environ;
+
+    environ = lpNoEnv;
+    #endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->name == NULL)
-- 
2.43.0


From f1b45dc519132e0fc874d96719b1ae4b1c091396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 018/165] fix: SET lists removed variables as (null)

---
 pbat/command/pBat_Set.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 18583fd..f26ac86 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,9 +203,8 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if ((lpeEnv->envbuf[i]->name != NULL)
+                && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine))) {
 
 				found = TRUE;
 
-- 
2.43.0


From 909c662ef865a93e3d7d5f03539ce2e27035fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 019/165] fix: ENDLOCAL does not restore the options SETLOCAL
 changed

---
 pbat/command/pBat_Setlocal.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..967b247 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,6 +60,8 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
+        delayed = bDelayedExpansion,
+        cmdly = bCmdlyCorrect,
         status = PBAT_NO_ERROR;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
@@ -75,16 +77,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
         } else if (!stricmp(lpName, "ENABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=TRUE;
+			delayed=TRUE;
 
 		} else if (!stricmp(lpName, "DISABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=FALSE;
+			delayed=FALSE;
 
 		} else if (!stricmp(lpName, "CMDLYCORRECT")) {
 
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=TRUE;
+			cmdly=TRUE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYCORRECT",
@@ -95,7 +97,7 @@ int pBat_CmdSetLocal(char* lpLine)
 #endif
 		} else if (!stricmp(lpName, "CMDLYINCORRECT")) {
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=FALSE;
+			cmdly=FALSE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYINCORRECT",
@@ -127,6 +129,12 @@ int pBat_CmdSetLocal(char* lpLine)
 	if (push)
         pBat_PushEnvStack();
 
+	/* only change options now that the old ones have been saved */
+	bDelayedExpansion = delayed;
+#if !defined(PBAT_STATIC_CMDLYCORRECT)
+	bCmdlyCorrect = cmdly;
+#endif
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From 2c7d1a24d823497a5f463ba14ad437f5b4eded66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 020/165] fix: ENDLOCAL in a CALLed label or script reverts
 SETLOCAL commands of the caller

---
 pbat/command/pBat_Call.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..e192798 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -233,6 +233,7 @@ error:
 int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 {
 	INPUT_FILE ifOldFile;
+	ENVSTACK* lpesOldEnv;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
 	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
 	LOCAL_VAR_BLOCK* lpvOldArgs;
@@ -358,12 +359,20 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
     /* Save echo state of the caller */
 
+    /* ENDLOCAL must not revert changes made by the caller */
+    lpesOldEnv = lpesEnv;
+    lpesEnv = NULL;
+
 	/* run the  command */
 
 	pBat_RunBatch(&ifIn);
 
     bAbortCommand=FALSE;
 
+    /* revert SETLOCAL commands that are still pending */
+    pBat_FreeEnvStack();
+    lpesEnv = lpesOldEnv;
+
 	/* restore the stream stack */
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
-- 
2.43.0


From 4249d229bd5f33154b2c114c0cf222ebc7164352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 021/165] fix: input redirected from a file starts with
 leftovers or the end-of-file state of the previous input

---
 pbat/core/pBat_Stream.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..f35ed9e 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -78,6 +78,17 @@
             __PBAT_DUP_STD(fd, s) \
             PBAT_RESET_BUFFERING(fd, s)
 
+/* Forget what has been read from the previous file: fflush() does not drop
+   the data read ahead from pipes, nor does it clear the end-of-file state */
+#ifdef __linux__
+#include <stdio_ext.h>
+#define PBAT_DROP_INPUT(s) \
+            __fpurge(s); \
+            clearerr(s)
+#else
+#define PBAT_DROP_INPUT(s) clearerr(s)
+#endif
+
 /* The trick here is that ftell(s) takes account of buffering situation so that
    fseek can set positions accurately, but however, the FILE structure does not
    contains any absolute counter for file pos.
@@ -87,8 +98,9 @@
 #define PBAT_DUP_STDIN(fd, s) \
             if (!isatty(fileno(s))) \
                 lseek(fileno(s), ftell(s), SEEK_SET); \
-            fflush(s); \
-            __PBAT_DUP_STD(fd, s) \
+            fflush(s); \
+            PBAT_DROP_INPUT(s); \
+            __PBAT_DUP_STD(fd, s) \
             PBAT_RESET_BUFFERING(fd, s)
 
 #define PBAT_XDUP(fd, s) \
-- 
2.43.0


From b900c0793a7a91421b41eb643f5862ef8d70b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 022/165] fix: a program does not read its input from where
 internal commands stopped

---
 pbat/core/pBat_Exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 14f576f..b79562f 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -47,6 +47,9 @@ int pBat_ExecuteFile(EXECINFO* info)
     fflush(fOutput);
     fflush(fError);
 
+    /* and it reads its input from where we stopped */
+    fflush(fInput);
+
     /* first try RunFile() */
     ret = pBat_RunFile(info, &error);
 
-- 
2.43.0


From 9a44bb52c0c07bbd35e6e3f5a84bddb319b72e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 023/165] fix: EXIT code ignores the code

---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From 4c66638474b03f6ec67a2275a9e01ad9edd2bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 024/165] fix: IF and FOR reset the error level, and with it
 the code of an EXIT /B they run

---
 pbat/command/pBat_For.c | 3 ++-
 pbat/command/pBat_If.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..99c7db8 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -358,7 +358,8 @@ error:
 	if (!lpplLine && line)
         pBat_FreeParsedStream(line);
 
-	return status;
+	/* like blocks, a FOR leaves the status of the last command */
+	return status ? status : iErrorLevel;
 }
 
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..bee96b5 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -431,7 +431,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+	/* like blocks, an IF leaves the status of the last command */
+	return iErrorLevel;
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From e140746643c4bed8eb6a8c24c96740de47ab9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 025/165] fix: body of FOR and IF is subject to the operator in
 front of the FOR or IF

---
 pbat/core/pBat_Run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..86e5bb5 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -835,6 +835,10 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
         }
     }
 
+    /* The operator in front of the lookahead command has been dealt with
+       already, its body is not subject to it (again) */
+    lookahead->cNodeType = PARSED_STREAM_NODE_NONE;
+
     pBat_EsCpy(cmd, "(");
 	pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
     pBat_EsCat(cmd, ")");
-- 
2.43.0


From ddea5308c51d637b8f9ac380cf575c795bf7f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 026/165] fix: commands of a pipe outlive it, are killed at
 exit or prevent it

---
 pbat/core/pBat_ExitInt.c |  6 ++++--
 pbat/core/pBat_Run.c     | 37 +++++++++++++++++++++++++++++++++----
 pbat/core/pBat_Run.h     | 10 ++++++++++
 3 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index f9090c9..77788d6 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -37,9 +37,11 @@ void pBat_Exit(void)
 
 	pBat_EsCacheDrop(&ecEstrCache);
 
-    /* pBat_WaitForAllThreads(); */
-
     fclose(fInput);
     fclose(fOutput);
     fclose(fError);
+
+    /* do not leave threads behind, exit() and a command blocked on a pipe
+       wait for each other */
+    pBat_WaitPipeThreads(NULL);
 }
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 86e5bb5..3384c15 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -104,12 +104,32 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
 }
 
+/* Threads launched by the pipes currently running in this instance */
+static __thread struct pipe_thread_t* lpPipeThreads = NULL;
+
+void pBat_WaitPipeThreads(struct pipe_thread_t* last)
+{
+    struct pipe_thread_t* item;
+    void* ret;
+
+    while (lpPipeThreads != last && (item = lpPipeThreads)) {
+
+        lpPipeThreads = item->next;
+
+        if (pBat_WaitForThread(&item->th, &ret) != 0)
+            pBat_CloseThread(&item->th);
+
+        free(item);
+
+    }
+}
+
 #define EXECOPERATORS_SKIP 1
 #define EXECOPERATORS_END 2
 int pBat_ExecOperators(PARSED_LINE** lpLine)
 {
     int pipedes[2];
-    THREAD res;
+    struct pipe_thread_t* res;
     struct pipe_launch_data_t* infos;
     PARSED_LINE* line=*lpLine;
     char *pch;
@@ -169,7 +189,8 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
 
         PBAT_RUNFILE_RELEASE();
 
-        if ((infos = malloc(sizeof(struct pipe_launch_data_t))) == NULL)
+        if ((infos = malloc(sizeof(struct pipe_launch_data_t))) == NULL
+            || (res = malloc(sizeof(struct pipe_thread_t))) == NULL)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()", -1);
 
@@ -184,8 +205,9 @@ int pBat_ExecOperators(PARSED_LINE** lpLine)
             pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                     __FILE__ "/pBat_ExecOperators()", -1);
 
-        res = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
-        pBat_CloseThread(&res);
+        res->th = pBat_CloneInstance((void(*)(void*))pBat_LaunchPipe, infos);
+        res->next = lpPipeThreads;
+        lpPipeThreads = res;
 
         lastin = pipedes[0];
         if (line->lppsNode)
@@ -328,10 +350,12 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 {
 	int lock, ok;
 	char *pch;
+	struct pipe_thread_t* threads;
 
 	/* loop though operators */
 	do {
 
+		threads = lpPipeThreads;
 		lock = pBat_GetStreamStackLockState(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, 1);
 
@@ -347,6 +371,7 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 
             lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
             pBat_SetStreamStackLockState(lppsStreamStack, lock);
+            pBat_WaitPipeThreads(threads);
 
             if (bAbortCommand)
                 break;
@@ -379,6 +404,10 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
 
+		/* the pipe is over when all its commands are, its last one has
+		   just closed its input */
+		pBat_WaitPipeThreads(threads);
+
 	} while (line && (line=line->lppsNode)
              && !(ok & EXECOPERATORS_END));
 
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index e85a8d6..f79232d 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -47,6 +47,16 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart);
 
 void pBat_LaunchPipe(struct pipe_launch_data_t* infos);
 
+/* threads running the left hand sides of pipes */
+struct pipe_thread_t {
+    THREAD th;
+    struct pipe_thread_t* next;
+};
+
+/* Waits for the threads launched by pipes until only those of the
+   list last remain */
+void pBat_WaitPipeThreads(struct pipe_thread_t* last);
+
 /* applies conditional operators */
 int pBat_ExecOperators(PARSED_LINE** lppsStream);
 
-- 
2.43.0


From 91c3a0b443673fc0c424d2bc7415fb593da3acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 027/165] fix: IF ERRORLEVEL crashes

---
 pbat/command/pBat_If.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..5ee800a 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,11 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    do { \
+        char _if_errorlevel[sizeof(int) * 3 + 2]; \
+        snprintf(_if_errorlevel, sizeof(_if_errorlevel), "%d", iErrorLevel); \
+        ret = !stricmp(val, _if_errorlevel); \
+    } while (0)
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From 972dad3381f3b30b9c7a61ba1ff8dc2639cc5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 028/165] fix: IF and FOR whose body is an IF or FOR do not
 swallow the rest of the line, leaks of their bodies

---
 pbat/command/pBat_For.c |  6 ++--
 pbat/command/pBat_If.c  |  8 ++---
 pbat/core/pBat_Run.c    | 65 ++++++++++++++++++++++++-----------------
 pbat/core/pBat_Run.h    |  1 +
 4 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 99c7db8..de0ff93 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -314,8 +314,6 @@ int pBat_CmdFor(char* lpLine, PARSED_LINE** lpplLine)
     }
 
 
-    /* Beware after this line ! There is a quite high probability that lpLine
-       will get somehow freed */
     line = pBat_LookAHeadMakeParsedLine(&bkCode, lpplLine ? *lpplLine : NULL) ;
 
 	switch(iForType) {
@@ -355,8 +353,8 @@ error:
     if (lpplLine)
         *lpplLine = NULL;
 
-	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+	if (line)
+        pBat_LookAHeadFreeParsedLine(line);
 
 	/* like blocks, a FOR leaves the status of the last command */
 	return status ? status : iErrorLevel;
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index bee96b5..9c13500 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -345,9 +345,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
             line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL);
 
         pBat_RunParsedLine(line);
-
-        if (!lpplLine)
-            pBat_FreeParsedLine(line);
+        pBat_LookAHeadFreeParsedLine(line);
 
     } else {
 
@@ -398,9 +396,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                         line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL);
 
                     pBat_RunParsedLine(line);
-
-                    if (!lpplLine)
-                        pBat_FreeParsedLine(line);
+                    pBat_LookAHeadFreeParsedLine(line);
 
                 }
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 3384c15..2c1faf3 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -833,51 +833,64 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
 
    However, both the if and for commands (the only current lookAHeads)
    swallow every command bits to the left of them. So when the command
-   is executed, the PARSED_LINE* must be refactored to look like this :
+   is executed, a PARSED_LINE* must be made to look like this :
 
               &
    "smthing" ==> "echo something else"
 
    that will either be executed later or not depending on the
-   command.
+   command. It shares the streams and the next elements of the original,
+   which is left as is since it may well be executed again (by a FOR). It must
+   be freed using pBat_LookAHeadFreeParsedLine().
 
-   if lookahead is NULL a new PARSED_LINE will be malloc'd */
+   if lookahead is NULL there is neither stream nor next element */
 PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahead)
 {
-	ESTR* cmd = pBat_EsInit_Cached();
+	ESTR* cmd;
+	PARSED_LINE* line;
+	char* pch = pBat_SkipAllBlanks(block->lpBegin);
 
-    if (!lookahead) {
-        if (!(lookahead = malloc(sizeof(PARSED_LINE)))) {
+    if (!(line = malloc(sizeof(PARSED_LINE)))) {
 
-            pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
-                                    __FILE__ "/pBat_LookAHeadMakeParsedLine()",
-                                    -1);
-            return NULL;
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_LookAHeadMakeParsedLine()",
+                                -1);
+        return NULL;
 
-        } else {
+    }
 
-            lookahead->sStream = NULL;
-            lookahead->lppsNode = NULL;
-            lookahead->cNodeType = 0;
-            lookahead->lpCmdLine = NULL;
+    cmd = pBat_EsInit_Cached();
+
+    if (*(block->lpBegin - 1) != '('
+        && ((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch + 2)))
+            || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3))))) {
+
+        /* This is a lookahead command which is not enclosed inside a block. In
+           turn, it swallows the next elements. */
+        pBat_EsCpyN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
+
+    } else {
+
+        pBat_EsCpy(cmd, "(");
+        pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
+        pBat_EsCat(cmd, ")");
 
-        }
     }
 
     /* The operator in front of the lookahead command has been dealt with
        already, its body is not subject to it (again) */
-    lookahead->cNodeType = PARSED_STREAM_NODE_NONE;
-
-    pBat_EsCpy(cmd, "(");
-	pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
-    pBat_EsCat(cmd, ")");
+    line->cNodeType = PARSED_STREAM_NODE_NONE;
+    line->lpCmdLine = cmd;
+    line->sStream = lookahead ? lookahead->sStream : NULL;
+    line->lppsNode = lookahead ? lookahead->lppsNode : NULL;
 
-    if (lookahead->lpCmdLine)
-        pBat_EsFree_Cached(lookahead->lpCmdLine);
-
-    lookahead->lpCmdLine = cmd;
+    return line;
+}
 
-    return lookahead;
+void pBat_LookAHeadFreeParsedLine(PARSED_LINE* line)
+{
+    pBat_EsFree_Cached(line->lpCmdLine);
+    free(line);
 }
 
 #ifndef WIN32
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index f79232d..7d0dc8c 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -80,6 +80,7 @@ int pBat_RunExternalFile(char* lpFileName, char* lpFullLine, char** lpArguments)
 int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments);
 
 PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block,PARSED_LINE* lookahead);
+void pBat_LookAHeadFreeParsedLine(PARSED_LINE* line);
 
 #ifndef WIN32
 
-- 
2.43.0


From c335e6a878d030f8e4870b07c128090b21eac6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 029/165] fix: SHIFT /7 is refused

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From ddf8e919f5fc8f975839d6037fc554a634cfa29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 030/165] fix: failed GOTO and CALL free an uninitialised
 script or leave the caller's one marked as a copy

---
 pbat/command/pBat_Call.c | 3 +++
 pbat/core/pBat_Jump.c    | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index e192798..297c471 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -282,6 +282,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabel, FALSE);
 
+		/* the caller's script goes on */
+		memcpy(&ifIn, &ifOldFile, sizeof(INPUT_FILE));
+
 		status = PBAT_LABEL_ERROR;
 		goto error;
 
diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..417b5e6 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,9 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From 8ffe14f568a1daab39c34424c05c6f920b618d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 031/165] fix: modification check of a running script reads an
 uninitialised status

---
 pbat/core/pBat_ReadScript.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..e59d0fa 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -126,6 +126,8 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restric
 {
     struct stat st;
 
+    *err = 0;
+
     if (stat(script->name, &st) == 0)
         return st.st_size;
 
-- 
2.43.0


From 441b95f6b2742176e32a5a88a45f1076b5254f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 032/165] fix: EXIT in a called subroutine or script frees
 memory of the stack

---
 pbat/command/pBat_Call.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 297c471..f884c89 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -235,9 +235,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	INPUT_FILE ifOldFile;
 	ENVSTACK* lpesOldEnv;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
-	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpBlock;
 	LOCAL_VAR_BLOCK* lpvOldArgs;
-	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpArgs;
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -247,6 +247,15 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	int   c='1',
 	      iLockState;
 
+    /* these are freed by pBat_Exit() if the callee exits from pBat, thus
+       they can not be on the stack */
+    lpvTmpBlock = pBat_GetLocalBlock();
+    lpvTmpArgs = pBat_GetLocalBlock();
+
+    if (lpvTmpBlock == NULL || lpvTmpArgs == NULL)
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
+                              | PBAT_PRINT_C_ERROR,
+                              __FILE__ "/pBat_CmdCallFile", -1);
     if (lpFile != NULL
         && pBat_GetFileFullPath(lpAbsPath, lpFile, sizeof(lpAbsPath))==-1) {
 
@@ -380,19 +389,6 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
 
-	/* free variables that have been allocated while
-	   executing the batch script (or the function) */
-
-	for (c=0; c < LOCAL_VAR_BLOCK_SIZE; c++) {
-
-        if (pBat_IsLocalVarValid(c)) {
-            /* This is really important to prevent any kind of memory
-               leakage */
-
-            pBat_SetLocalVar(lpvLocalVars, c, NULL);
-            pBat_SetLocalVar(lpvArguments, c, NULL);
-        }
-	}
 
 	/* free the newly allocated batch script */
     pBat_FreeBatchScript(&(ifIn.batch));
@@ -404,6 +400,11 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	lpvArguments = lpvOldArgs;
 
 error:
+	/* free variables that have been allocated while
+	   executing the batch script (or the function) */
+	pBat_FreeLocalBlock(lpvTmpBlock);
+	pBat_FreeLocalBlock(lpvTmpArgs);
+
 	pBat_EsFree_Cached(lpEsParam);
 	return status ? status : iErrorLevel; /* do not affect errorlevel */
 }
-- 
2.43.0


From ecbdc01a312093cb134891c7ac4a3e562ef9c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 033/165] fix: void arguments are lost in %+ and in %* of a
 script

---
 pbat/command/pBat_Call.c | 4 ++++
 pbat/init/pBat_Init.c    | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index f884c89..46c5980 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -336,6 +336,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
             pBat_EsReplace(lpEsParam, "\t", "^\t");
             pBat_EsReplace(lpEsParam, "\"", "^\"");
 
+            /* keep void parameters */
+            if (*(lpEsParam->str) == '\0')
+                pBat_EsCpy(lpEsParam, "\"\"");
+
             pBat_EsCatE(lpEsCmd, lpEsParam);
             pBat_EsCat(lpEsCmd, " ");
 
diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..6ae3317 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -65,7 +65,8 @@ void pBat_AssignCommandLine(int c, char** argv)
         pBat_EsCpy(lpEsParam, *argv);
         pBat_EsReplace(lpEsParam, "\"", "^\""); /* escape parenthesis */
 
-        if (strpbrk(*argv, delims)) {
+        /* void parameters need quotes too */
+        if (**argv == '\0' || strpbrk(*argv, delims)) {
 
             pBat_EsCat(lpEsStr, "\"");
             pBat_EsCatE(lpEsStr, lpEsParam);
-- 
2.43.0


From 1af04c28a5ae6c9722f614058718d1e275fdc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 034/165] fix: a script calling itself is not run from its
 beginning

---
 pbat/command/pBat_Call.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 46c5980..a23a0aa 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -285,6 +285,8 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 		         lpAbsPath
 		        );               /* sets input to given file */
 
+		/* start at its beginning, even if this is the running script */
+		ifIn.batch.curr = ifIn.batch.cmds;
 		pBat_SetLocalVar(lpvTmpArgs, '0', lpAbsPath);
 
 	} else if (pBat_JumpToLabel(lpLabel, lpFile ? lpAbsPath : NULL)== -1) {
-- 
2.43.0


From 28d8cf622c27856108a61ebd2f66c0356328439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 035/165] fix: IF ERRORLEVEL n tests equality instead of
 greater or equal

---
 pbat/command/pBat_If.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 5ee800a..0374e56 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,11 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    do { \
-        char _if_errorlevel[sizeof(int) * 3 + 2]; \
-        snprintf(_if_errorlevel, sizeof(_if_errorlevel), "%d", iErrorLevel); \
-        ret = !stricmp(val, _if_errorlevel); \
-    } while (0)
+    ret = (iErrorLevel >= atoi(val));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From d3428d2ece99f8173ebc18bec0d44251d72c5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 036/165] fix: IF takes void strings, nan and inf for numbers

---
 pbat/command/pBat_If.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 9c13500..a874b4c 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -441,6 +441,10 @@ int pBat_GetCmpValue(const char* number, double* value)
     char* end;
     int f=0;
 
+    /* strtod() takes more than numbers ("nan", "inf", ...) */
+    if (number[strspn(number, "+-.0123456789abcdefABCDEFxX \t;,")] != '\0')
+        return -1;
+
     while (1) {
 
         if (f == 0)
@@ -448,7 +452,7 @@ int pBat_GetCmpValue(const char* number, double* value)
         else /* Double mode chosen */
             *value = strtod(number, &end);
 
-        if (*pBat_SkipBlanks(end) != '\0'){
+        if (end == number || *pBat_SkipBlanks(end) != '\0'){
             if (f == 0)
                 f = 1;
             else
-- 
2.43.0


From d23b1a3653782761605fb5991297adc2b26a2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 037/165] fix: IF reads before a void left operand, leaks on a
 bad operator and runs the rest of the line

---
 pbat/command/pBat_If.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index a874b4c..59ef6dc 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -241,7 +241,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 				*/
 				char *q = (lpToken2 + strlen(lpToken2) - 1);
 
-				if (*q == '"') {
+				if (*lpToken2 && *q == '"') {
 					*q = '\0';
 					lpToken++;
 				}
@@ -295,7 +295,12 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                 if (iResult == -1) {
 
                     /* there is a syntax error, obviously */
-                    return -1;
+                    pBat_EsFree_Cached(lpComparison);
+
+                    if (lpplLine)
+                        *lpplLine = NULL;
+
+                    return PBAT_UNEXPECTED_ELEMENT;
 
                 }
 
-- 
2.43.0


From 66eb3e3f538d3063524cd8a82631867bb83b0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 038/165] fix: AND in bracketed IF expressions depends on an
 uninitialised value

---
 pbat/command/pBat_IfExp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..d91e462 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,10 +134,10 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
         if (!res1)
             return 0;
-    else if (res2)
+    } else if (res1)
         return 1;
 
     if (exp->child2.type == IFEXP_NODE_OPS) {
-- 
2.43.0


From f59496766532c9b13a57fc56ce44ac9dc796933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 039/165] fix: OR binds tighter than AND in bracketed IF
 expressions

---
 pbat/command/pBat_IfExp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index d91e462..9244a48 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -237,23 +237,23 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From 815e4d05a0ed5b841a361af2084119eb8edb2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 040/165] fix: invalid bracketed IF expressions use freed
 memory

---
 pbat/command/pBat_IfExp.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 9244a48..6272849 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -65,8 +65,9 @@ char * pBat_IfExp_Compute(char* line, int* ret, int flags)
 
     line = pBat_IfExp_ParseLine(line, &lineexp);
 
-    if (lineexp == NULL){
+    if (lineexp == NULL || line == NULL){
 
+        pBat_IfExp_FreeLine(lineexp);
         *ret = -1; /* report error */
         return line;
 
@@ -172,6 +173,9 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
 
     FILELIST* files;
 
+    if (test == NULL)
+        return -1;
+
     if (!stricmp(test->op->str, "NOT")) {
 
         neg = 1;
@@ -284,7 +288,9 @@ void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
 
     } else {
 
-        child->child.ops = line;
+        /* this is a syntax error, and pBat_IfExp_Parse() might already have
+           freed a part of line */
+        child->child.ops = NULL;
         child->type = IFEXP_NODE_OPS;
 
     }
@@ -334,6 +340,10 @@ int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line)
     }
 
 
+    /* unbalanced brackets */
+    if (count != 0)
+        return 0;
+
     /* free the last bracket */
     prev->next = NULL;
     pBat_EsFree_Cached(ops->op);
@@ -361,6 +371,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
-- 
2.43.0


From c0e2961e67b255a1d7ca88ad60e9ee9a722d7087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 041/165] fix: IF compares numbers out of range of long as
 equal

---
 pbat/command/pBat_If.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 59ef6dc..5758579 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -457,7 +457,10 @@ int pBat_GetCmpValue(const char* number, double* value)
         else /* Double mode chosen */
             *value = strtod(number, &end);
 
-        if (end == number || *pBat_SkipBlanks(end) != '\0'){
+        /* integers are 32 bits wide, whatever is larger is compared as a
+           floating point value */
+        if (end == number || *pBat_SkipBlanks(end) != '\0'
+            || (f == 0 && (*value > 2147483647. || *value < -2147483648.))){
             if (f == 0)
                 f = 1;
             else
-- 
2.43.0


From 4dbfd0d5056ef9b6162b954f51751326b919f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 042/165] fix: IF !var! EQU takes == in the value of var for
 the operator

---
 pbat/command/pBat_If.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 5758579..3f4d826 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -225,7 +225,9 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
 		 } else if (lpNext) {
 
-			if ((lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
+			/* the value of a variable does not make an operator */
+			if ((lpToken=strstr(lpParam, "==")) && lpToken < lpNext
+                && (lpToken=strstr(pBat_EsToChar(lpComparison), "=="))) {
 				/* if script uses old c-style comparison */
 				*lpToken='\0';
 				lpToken+=2;
-- 
2.43.0


From 26722761a32321dc7d8470cecb7978f337c46182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 043/165] fix: IF NOT is ignored in front of EQU, NEQ, LSS,
 LEQ, GTR and GEQ

---
 pbat/command/pBat_If.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 3f4d826..7739493 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -306,7 +306,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
                 }
 
-
+                if (iFlag & PBAT_IF_NEGATION)
+                    iResult=!iResult;
 			}
 		} else {
 
-- 
2.43.0


From e87ed7548919995d49a23de23161e7c4885a93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 044/165] fix: FOR /F tokens= merged the first token with the
 default one

---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index de0ff93..5e1f20f 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -858,7 +858,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -881,7 +881,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -894,7 +894,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -962,7 +962,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From ba1f020333982243cdc52b14665bbba16c9b69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 045/165] fix: error messages with a system reason crashed or
 gave the wrong reason

---
 pbat/errors/pBat_Errors.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 5753112..225f0de 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <errno.h>
 
 #include <libpBat.h>
@@ -246,11 +247,12 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
                            int iExitCode)
 {
 	char* msg = "Undefined";
+	int err = errno; /* changing the text color may alter it */
 
 	pBat_SetConsoleTextColor(fError, PBAT_GET_BACKGROUND(colColor) | PBAT_FOREGROUND_IRED);
 
 	if (iErrorNumber & PBAT_PRINT_C_ERROR)
-        msg = strerror(errno);
+        msg = strerror(err);
 
 	if ((iErrorNumber & ~PBAT_PRINT_C_ERROR) < sizeof(lpErrorMsg)) {
 
-- 
2.43.0


From 85f56cbbe19663269c5863f2fe1ad6264caad184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 046/165] fix: FOR /F over several files crashed on a missing
 one and left the others open

---
 pbat/command/pBat_For.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 5e1f20f..2f4aca1 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1435,7 +1435,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1458,13 +1457,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                            		lpipInfo->Info.InputFile.index
+                            	]->str,
                             FALSE
                             );
 
@@ -1563,7 +1566,8 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            if (lpipInfo->Info.InputFile.pFile != NULL)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From 21cf2dcf196b0c294ab61676d2019cf99bf2126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 047/165] fix: FOR /F only protected and released its first
 variable

---
 pbat/command/pBat_For.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 2f4aca1..a36c75d 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1144,10 +1144,13 @@ void pBat_ForVarUnassign(FORINFO* lpfrInfo)
 
 	for (i=0; i<iMax; i++) {
 
-		pBat_SetLocalVar(lpvLocalVars, cVarName+i, NULL);
+		pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
 
-		if ((cVarName+i) & 0x80)
-			break;
+		cVarName++;
+
+		if (cVarName & 0x80) {
+			cVarName=0x21;
+		}
 	}
 }
 
@@ -1167,8 +1170,11 @@ int pBat_ForVarCheckAssignment(FORINFO* lpfrInfo)
 
 		}
 
-		if (cVarName & 0x80)
-			break;
+		cVarName++;
+
+		if (cVarName & 0x80) {
+			cVarName=0x21;
+		}
 	}
 
 	return PBAT_NO_ERROR;
-- 
2.43.0


From 7a1380769491b2ad0306725a7879d9e58830caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 048/165] fix: FOR /L overflowed past INT_MAX

---
 pbat/command/pBat_For.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index a36c75d..4e7713f 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -550,6 +550,13 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 		if (bAbortCommand)
 			break;
 
+		/* the next value can not be represented, thus it is past the end
+		   of the loop */
+		if (iLoopInfo[PBAT_FORL_INC] > 0
+		    ? i > INT_MAX - iLoopInfo[PBAT_FORL_INC]
+		    : i < INT_MIN - iLoopInfo[PBAT_FORL_INC])
+			break;
+
 	}
 
 	pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
-- 
2.43.0


From 14418d8579dd9589d1e9c4564e68ba8a0fe3ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 049/165] fix: FOR looped forever on a colon

---
 pbat/command/pBat_For.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 4e7713f..42c0c15 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -374,9 +374,11 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
     FILELIST *files = NULL,
              *item = NULL;
 
+	/* pBat_GetParameterPointers() does not skip leading colons */
 	while ((files != NULL)
            || (lpToken != NULL && pBat_GetParameterPointers(&lpBegin, &lpToken,
-                                                    lpDelimiters, lpToken))) {
+                                        lpDelimiters,
+                                        lpToken + strspn(lpToken, " ,:;\n\t")))) {
 
         if (files != NULL) {
 
-- 
2.43.0


From c56f9a57e4414140ab1dab5064622e1a9e17fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 050/165] fix: FOR /F skipped empty lines

---
 pbat/command/pBat_For.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 42c0c15..d729415 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -596,6 +596,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 
             /* If the line starts with one of the EOL characters, just skip it */
             if ((lpfrInfo->lpEol[0] != '\0')
+                && (*(lpInputToP->str) != '\0')
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From bb0cbe0ff07d71b540c085680362f4a32f547d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 051/165] fix: FOR over files interrupted by GOTO leaked the
 files

---
 pbat/command/pBat_For.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d729415..d9e4719 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -474,6 +474,10 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
 	}
 
+	/* the loop was interrupted among the files */
+	if (files != NULL)
+        pBat_FreeFileList(files);
+
 	/* delete the special var */
 	pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
 	pBat_EsFree_Cached(lpesStr);
-- 
2.43.0


From 1c7eadeca57bced775bccc80f9686aee1c239965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 052/165] fix: FOR told files from directories by uninitialised
 memory

---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d9e4719..af4728c 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -441,8 +441,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From 8c93f78c1fcefc1ae1330ac6552c53d27f6fff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 053/165] fix: a trailing * in an expression did not accept a
 void sequence

---
 libpbat/dir/pBat_Dir.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..a04fd59 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -697,6 +697,10 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* jokers accept void sequences */
+    while (*regexp == '*')
+        regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -816,6 +820,10 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* jokers accept void sequences */
+    while (*regexp == '*')
+        regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From c905edfcbcf2599d3e44cc3cdfaca5754580043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 054/165] fix: expressions took multi-byte characters with the
 same first byte for equal

---
 libpbat/dir/pBat_Dir.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index a04fd59..09eb679 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -690,6 +690,11 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
             default:
                 if (*regexp  != *match)
                     return 0;
+
+                /* compare every byte of multi-byte characters */
+                regexp ++;
+                match ++;
+                continue;
         }
 
         regexp = pBat_GetNextChar(regexp);
@@ -813,6 +818,11 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
             default:
                 if (toupper(*regexp)  != toupper(*match))
                     return 0;
+
+                /* compare every byte of multi-byte characters */
+                regexp ++;
+                match ++;
+                continue;
         }
 
         regexp = pBat_GetNextChar(regexp);
-- 
2.43.0


From 50bd58ff0e8e7754c7bf53c1b0577f353af49806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 055/165] fix: CMDLYCORRECT scripts printed the prompt for the
 next line of a block

---
 pbat/core/pBat_Read.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 2b1814f..c7982b1 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -219,8 +219,13 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 		}
 
-        lpAltPromptString = ">";
-        pBat_OutputPromptString(lpAltPromptString);
+        /* only prompt for what the user types, not for scripts */
+        if (*(pIn->lpFileName) == '\0') {
+
+            lpAltPromptString = ">";
+            pBat_OutputPromptString(lpAltPromptString);
+
+        }
 
 	}
 
-- 
2.43.0


From 8d5a5cb23b6643d7ba80510f57c2a41899158b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 056/165] fix: the environment of a program was allocated
 between fork and exec, where other threads' locks may be held

---
 pbat/core/pBat_Exec.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index b79562f..4d3a8e2 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -281,8 +281,9 @@ int pBat_RunFile(EXECINFO* info, int* error)
 int pBat_RunFile(EXECINFO* info, int* error)
 {
 	pid_t iPid;
-	int fds[2], i;
-	char c;
+	int fds[2], i, nb = 0;
+	char c, *block, *p, **env;
+	size_t size;
 
 	int iResult = 0;
 
@@ -299,11 +300,29 @@ int pBat_RunFile(EXECINFO* info, int* error)
                                 __FILE__ "/pBat_RunFile()",
                                 -1);
 
+	/* Prepare the environment before forking: other threads may be in the
+	   middle of an allocation, whose locks the son would wait for forever */
+	block = pBat_GetEnvBlock(lpeEnv, &size);
+
+	for (p = block; *p; p += strlen(p) + 1)
+		nb ++;
+
+	if (!(env = malloc((nb + 1) * sizeof(char*))))
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_RunFile()",
+                                -1);
+
+	nb = 0;
+
+	for (p = block; *p; p += strlen(p) + 1)
+		env[nb ++] = p;
+
+	env[nb] = NULL;
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
 		/* if we are in the son */
-        pBat_ApplyEnv(lpeEnv); /* set internal variable */
         pBat_ApplyStreams(lppsStreamStack);
         chdir(info->dir);
 
@@ -321,7 +340,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
         close(fds[0]); /* close read end */
 
-		if ( execv(info->file, info->args) == -1) {
+		if ( execve(info->file, info->args, env) == -1) {
 
 			/* if we got here, we can't set ERRORLEVEL
 			   variable anymore.
@@ -349,6 +368,8 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	} else {
 		/* if we are in the father */
+		free(env);
+		free(block);
 		close(fds[1]);
 
 		if (iPid == (pid_t)-1) {
-- 
2.43.0


From e4b79bf277cb4bf1445678e88decdfaf0604e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 057/165] fix: 2>&1 and 1>&2 nested in each other swapped the
 streams

---
 pbat/core/pBat_Run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 2c1faf3..8a3aa8b 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -308,7 +308,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1,
 		                -1
 		               );
-        fError = _fOutput;
+        fError = fOutput;
         break;
 
     case PARSED_STREAM_STDOUT2STDERR:
@@ -316,7 +316,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1 ,
 		                -1
 		               );
-        fOutput = _fError;
+        fOutput = fError;
 
     }
 
-- 
2.43.0


From 9ad58e31a1b065902b9667e37a2cb757c621f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 058/165] fix: redirecting a stream inside 2>&1 or 1>&2
 redirected the other one too

---
 pbat/core/pBat_Stream.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..6e184ab 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -78,6 +78,20 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     int newfd, fmode;
     STREAMSTACK* item;
 
+    /* The other stream may be directed to the one that is about to be
+       redirected: it has to remain where it is */
+    if (fd == PBAT_STDOUT && fError == _fOutput) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fOutput), PBAT_STDERR);
+        fError = _fError;
+
+    } else if (fd == PBAT_STDERR && fOutput == _fError) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fError), PBAT_STDOUT);
+        fOutput = _fOutput;
+
+    }
+
     /* try to malloc a new stack item */
     if (!(item = malloc(sizeof(STREAMSTACK))))
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
-- 
2.43.0


From 35cfc922ded5ccb88ae6201ae6a434babba07c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 059/165] fix: the left side of a pipe overtakes earlier output
 and loses the rest of its input

---
 pbat/core/pBat_Clone.c   | 6 ++++++
 pbat/core/pBat_ExitInt.c | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..bb6319c 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -135,6 +135,12 @@ int pBat_DuplicateData(struct clone_data_t* data)
     data->ifIn.bEof = ifIn.bEof;
     data->ifIn.iPos = ifIn.iPos;
 
+    /* What has been written so far has to come before what the new instance
+       writes, and it has to read on from where this one stopped */
+    fflush(fOutput);
+    fflush(fError);
+    fflush(fInput);
+
 #define DUPLICATE_STREAM(dest, s, mode) \
     if ((fd = dup(fileno(s))) == -1) \
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index 77788d6..1659707 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -37,6 +37,8 @@ void pBat_Exit(void)
 
 	pBat_EsCacheDrop(&ecEstrCache);
 
+    /* give back what has been read ahead */
+    fflush(fInput);
     fclose(fInput);
     fclose(fOutput);
     fclose(fError);
-- 
2.43.0


From e020db61455417a5d65a889d984be3d42baea14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 060/165] fix: names in redirections were expanded and located
 before the commands preceding them ran

---
 pbat/core/pBat_Args.c  | 16 +++++++++++++---
 pbat/core/pBat_Args.h  |  2 ++
 pbat/core/pBat_Parse.c | 10 +++++-----
 pbat/core/pBat_Run.c   | 30 +++++++++++++++++++++++++++---
 4 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 0bbd5cc..faad1a7 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -177,6 +177,19 @@ char* pBat_GetNextBlockEs(char* lpLine, ESTR* lpReturn)
 
 char* pBat_GetNextParameterEsD(char* lpLine, ESTR* lpReturn, const
 				char* lpDelims)
+{
+	char* lpEnd = pBat_GetNextRawParameterEsD(lpLine, lpReturn, lpDelims);
+
+	/* expand delayed expand variable */
+	if (lpEnd != NULL)
+		pBat_DelayedExpand(lpReturn);
+
+	return lpEnd;
+}
+
+/* the same, but leaves delayed expansion to the caller */
+char* pBat_GetNextRawParameterEsD(char* lpLine, ESTR* lpReturn, const
+				char* lpDelims)
 /* This function returns the next parameter available on the
    command-line.
 
@@ -267,9 +280,6 @@ next:
 
 	}
 
-	/* expand delayed expand variable */
-	pBat_DelayedExpand(lpReturn);
-
 	return lpEnd;
 }
 
diff --git a/pbat/core/pBat_Args.h b/pbat/core/pBat_Args.h
index 5650b64..9065411 100644
--- a/pbat/core/pBat_Args.h
+++ b/pbat/core/pBat_Args.h
@@ -43,6 +43,8 @@ int   pBat_GetParameterPointers(char** lpPBegin, char** lpPEnd,
 #define pBat_GetNextParameterEs(lpLine, lpReturn) \
     pBat_GetNextParameterEsD(lpLine, lpReturn, PBAT_DELIMITERS)
 
+char* pBat_GetNextRawParameterEsD(char* lpLine, ESTR* lpReturn,
+				const char* lpDelims);
 char* pBat_GetNextParameterEsD(char* lpLine, ESTR* lpReturn, const
 					char* lpDelims);
 
diff --git a/pbat/core/pBat_Parse.c b/pbat/core/pBat_Parse.c
index 93ac257..b2eb66e 100644
--- a/pbat/core/pBat_Parse.c
+++ b/pbat/core/pBat_Parse.c
@@ -202,7 +202,7 @@ PARSED_STREAM* pBat_ParseOutput(ESTR* lpesLine)
 
 			}
 
-			if (!(lpCh=pBat_GetNextParameterEsD(lpNextToken, lpesParam,
+			if (!(lpCh=pBat_GetNextRawParameterEsD(lpNextToken, lpesParam,
                                                     PBAT_DELIMITERS "&|><)"))) {
 
 				pBat_FreeParsedStream(lppssStart);
@@ -214,9 +214,9 @@ PARSED_STREAM* pBat_ParseOutput(ESTR* lpesLine)
 			}
 
 			if ((cChar != '2' && !(lppssStart->lpOutputFile =
-                                pBat_FullPathDup(pBat_EsToChar(lpesParam))))
+                                strdup(pBat_EsToChar(lpesParam))))
                 || (cChar == '2' && !(lppssStart->lpErrorFile =
-                                pBat_FullPathDup(pBat_EsToChar(lpesParam))))) {
+                                strdup(pBat_EsToChar(lpesParam))))) {
 
 				pBat_FreeParsedStream(lppssStart);
 
@@ -244,7 +244,7 @@ PARSED_STREAM* pBat_ParseOutput(ESTR* lpesLine)
 
 			}
 
-			if (!(lpCh=pBat_GetNextParameterEsD(lpNextToken, lpesParam,
+			if (!(lpCh=pBat_GetNextRawParameterEsD(lpNextToken, lpesParam,
                                                  PBAT_DELIMITERS "&|><)"))) {
 
 				pBat_FreeParsedStream(lppssStart);
@@ -255,7 +255,7 @@ PARSED_STREAM* pBat_ParseOutput(ESTR* lpesLine)
 
 			}
 
-			if (!(lppssStart->lpInputFile=pBat_FullPathDup(pBat_EsToChar(lpesParam)))) {
+			if (!(lppssStart->lpInputFile=strdup(pBat_EsToChar(lpesParam)))) {
 
 				pBat_FreeParsedStream(lppssStart);
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 8a3aa8b..6ff6b5c 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -264,6 +264,30 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 
 }
 
+/* The commands before on the same line may have changed the variables the
+   name is made of, and the current directory, so that it can not be determined
+   sooner */
+static STREAMSTACK* pBat_OpenRedirection(STREAMSTACK* stack, char* file,
+                                                    int fd, int mode)
+{
+    ESTR* name = pBat_EsInit_Cached();
+    char* path;
+
+    pBat_EsCpy(name, file);
+    pBat_DelayedExpand(name);
+
+    if (!(path = pBat_FullPathDup(pBat_EsToChar(name))))
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_OpenRedirection()", -1);
+
+    stack = pBat_OpenOutput(stack, path, fd, mode);
+
+    free(path);
+    pBat_EsFree_Cached(name);
+
+    return stack;
+}
+
 int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 {
 
@@ -280,21 +304,21 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 
 	/* open the redirections */
 	if (lppssStart->lpInputFile)
-		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
+		lppsStreamStack = pBat_OpenRedirection(lppsStreamStack,
 		                lppssStart->lpInputFile,
 		                PBAT_STDIN,
 		                0
 		               );
 
 	if (lppssStart->lpOutputFile)
-		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
+		lppsStreamStack = pBat_OpenRedirection(lppsStreamStack,
 		                lppssStart->lpOutputFile,
 		                PBAT_STDOUT,
 		                lppssStart->cOutputMode
 		               );
 
     if (lppssStart->lpErrorFile)
-		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
+		lppsStreamStack = pBat_OpenRedirection(lppsStreamStack,
 		                lppssStart->lpErrorFile,
 		                PBAT_STDERR,
 		                lppssStart->cErrorMode
-- 
2.43.0


From bca4114f6c1b5db69b2e9305446911b6e6c9626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 061/165] fix: the right side of a pipe moved back the input
 its left side was reading

---
 pbat/core/pBat_Stream.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index f35ed9e..cb5befd 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -89,6 +89,17 @@
 #define PBAT_DROP_INPUT(s) clearerr(s)
 #endif
 
+/* Set the position back to what has actually been read. The position must not
+   be touched if nothing was read ahead: the left side of a pipe may be reading
+   from the same file. */
+#ifdef __GLIBC__
+#define PBAT_SYNC_INPUT(s)
+#else
+#define PBAT_SYNC_INPUT(s) \
+            if (!isatty(fileno(s))) \
+                lseek(fileno(s), ftell(s), SEEK_SET);
+#endif
+
 /* The trick here is that ftell(s) takes account of buffering situation so that
    fseek can set positions accurately, but however, the FILE structure does not
    contains any absolute counter for file pos.
@@ -96,8 +107,7 @@
    Hence here we reset the postion of the file descriptor and then use fflush()
    to clear any buffering information still in the FILE */
 #define PBAT_DUP_STDIN(fd, s) \
-            if (!isatty(fileno(s))) \
-                lseek(fileno(s), ftell(s), SEEK_SET); \
+            PBAT_SYNC_INPUT(s) \
             fflush(s); \
             PBAT_DROP_INPUT(s); \
             __PBAT_DUP_STD(fd, s) \
-- 
2.43.0


From 741be9519ea6d33ad3e92fdbe4e3ac7fa2cfe2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 062/165] fix: ECHO blocked on a full pipe while holding a lock
 its reader needs

---
 pbat/command/pBat_Echo.c | 13 ++-----------
 pbat/core/pBat_Globals.c |  1 -
 pbat/core/pBat_Globals.h |  1 -
 pbat/pBat.c              |  1 -
 4 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/pbat/command/pBat_Echo.c b/pbat/command/pBat_Echo.c
index 225a57b..11d35e4 100644
--- a/pbat/command/pBat_Echo.c
+++ b/pbat/command/pBat_Echo.c
@@ -61,16 +61,11 @@ int pBat_CmdEcho(char* lpLine)
 
 	lpEsParameter=pBat_EsInit_Cached();
 
-	if (pBat_LockMutex(&mEchoLock))
-        pBat_ShowErrorMessage(PBAT_LOCK_MUTEX_ERROR,
-                                        "pBat_Echo.c/pBat_CmdEcho()", -1);
-
 	if (ispunct(*lpLine)) {
 
 		pBat_GetEndOfLine(lpLine+1, lpEsParameter);
+		pBat_EsCat(lpEsParameter, PBAT_NL);
 		fputs(pBat_EsToChar(lpEsParameter), fOutput);
-        fputs(PBAT_NL, fOutput);
-
 
 	} else if ((tmp = pBat_GetNextParameterEs(lpLine, lpEsParameter))) {
 
@@ -91,8 +86,8 @@ int pBat_CmdEcho(char* lpLine)
 		} else {
 
 			pBat_GetEndOfLine(lpLine+1, lpEsParameter);
+			pBat_EsCat(lpEsParameter, PBAT_NL);
 			fputs(lpEsParameter->str, fOutput);
-            fputs(PBAT_NL, fOutput);
 
 		}
 
@@ -105,10 +100,6 @@ int pBat_CmdEcho(char* lpLine)
 
 	}
 
-	if (pBat_ReleaseMutex(&mEchoLock))
-        pBat_ShowErrorMessage(PBAT_RELEASE_MUTEX_ERROR,
-                                        "pBat_Echo.c/pBat_CmdEcho()", -1);
-
 	pBat_EsFree_Cached(lpEsParameter);
 
 	return 0;
diff --git a/pbat/core/pBat_Globals.c b/pbat/core/pBat_Globals.c
index 6bb20d6..4e3825a 100644
--- a/pbat/core/pBat_Globals.c
+++ b/pbat/core/pBat_Globals.c
@@ -48,7 +48,6 @@ int fdStderr;
 MUTEX mThreadLock;
 MUTEX mSetLock; /* a lock to serialize calls to yacc-generated parsers */
 MUTEX mRunFile; /* a lock to serialize calls to create process */
-MUTEX mEchoLock; /* a lock to serialize calls to echo */
 MUTEX mModLock; /* a lock to serialize calls to mod */
 char lppBatPath[FILENAME_MAX]; /* A path to the directory of the pBat executable */
 char lppBatExec[FILENAME_MAX]; /* A path to the pBat executable */
diff --git a/pbat/core/pBat_Globals.h b/pbat/core/pBat_Globals.h
index 86f6248..d60b849 100644
--- a/pbat/core/pBat_Globals.h
+++ b/pbat/core/pBat_Globals.h
@@ -40,7 +40,6 @@ extern char* lpInitVar[]; /* list of variable for initialization */
 extern MUTEX mThreadLock; /* a mutex for single threaded parts */
 extern MUTEX mRunFile; /* a mutex to serialize call to fork() / CreateProcess() */
 extern MUTEX mSetLock; /* a mutex for set (floats) */
-extern MUTEX mEchoLock; /* a mutex for serializing calls to ECHO */
 extern MUTEX mModLock; /* a lock to serialize calls to mod */
 
 extern int fdStdin; /* temporary storage for streams */
diff --git a/pbat/pBat.c b/pbat/pBat.c
index fc53329..eaed649 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -132,7 +132,6 @@ int main(int argc, char *argv[])
     pBat_CreateMutex(&mThreadLock);
     pBat_CreateMutex(&mSetLock);
     pBat_CreateMutex(&mRunFile);
-    pBat_CreateMutex(&mEchoLock);
     pBat_CreateMutex(&mModLock);
 
 #ifndef WIN32
-- 
2.43.0


From 2c992e2814ef867676ff1702eb300ab69e1ac556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 063/165] fix: questions never end at the end of input and miss
 the answers already read ahead

---
 pbat/command/pBat_Ask.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..347c8c6 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -51,10 +51,24 @@ void xread(int fd, void* p, size_t sz)
     } while (!cnt);
 
 }
-#else
-#define xread(fd, p, n) read(fd, p, n)
 #endif // defined
 
+/* Read one character of the answer, returns 0 at the end of input */
+static int pBat_AskConfirmationReadChar(char* c)
+{
+#if defined(WIN32) && defined(PBAT_USE_LIBCU8)
+    xread(fileno(fInput), c, 1);
+    return 1;
+#else
+    /* what the other commands have already buffered comes first */
+    int ch = fgetc(fInput);
+
+    *c = (char)ch;
+
+    return ch != EOF;
+#endif
+}
+
 void pBat_AskConfirmationRead(char* buffer, size_t size)
 {
 
@@ -63,7 +77,8 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
-        xread(fileno(fInput), &c, 1);
+        if (!pBat_AskConfirmationReadChar(&c))
+            break;
 
         if (c == '\r')
             continue;
@@ -90,7 +105,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet=0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
-- 
2.43.0


From a9aed5246eb5bbefc1569248a3307e7a49efbed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 064/165] fix: COPY and MOVE took /Y for /-Y and the reverse

---
 pbat/command/pBat_Copy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..3418e22 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -136,7 +136,10 @@ int pBat_CmdCopy(char* line)
         if (!stricmp("/Y", str)
             || !stricmp("/-Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            if (*(str+1) == '-')
+                flags &= ~PBAT_COPY_SILENCE;
+            else
+                flags |= PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From 250c40dca429e874dace3d533027db002efb7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 065/165] fix: COPY of two, four or more files overwrote the
 destination with each of them

---
 pbat/command/pBat_Copy.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 3418e22..1e0937e 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -283,11 +283,6 @@ int pBat_CmdCopy(char* line)
         end = end->lpflNext;
     }
 
-    end = files;
-
-    /* actual matching items */
-    while (end && (end = end->lpflNext) && (i++ < 2));
-
     /* Cmd does not accept several file names used in with a
        single *COPY* but for it, several files from a regular expression
        mean concatenation of file, which is somehow strange. */
@@ -296,7 +291,8 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    /* are there several matching items ? */
+    if (files && files->lpflNext) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
-- 
2.43.0


From 114d7817b0c34153247d15818df5f13eab5783ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 066/165] fix: MOVE deleted the file when it was moved to
 itself, or the destination when it could not be moved

---
 pbat/command/pBat_Copy.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 1e0937e..533e105 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -489,9 +489,13 @@ end:
 
 int pBat_MoveFile(const char* file, const char* dest)
 {
-    if ((pBat_FileExists(dest)
-         && remove(dest))
-        || rename(file, dest)) {
+    if (
+#ifdef WIN32
+        /* rename() does not replace files */
+        (pBat_FileExists(dest)
+         && remove(dest)) ||
+#endif
+        rename(file, dest)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_MOVE | PBAT_PRINT_C_ERROR,
                                 file,
-- 
2.43.0


From b245398335fa346919acf2697a6879fbfaeed3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 067/165] fix: COPY asked again before adding each further file
 to the file it had just created

---
 pbat/command/pBat_Copy.c | 14 ++++++++++----
 pbat/command/pBat_Copy.h |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 533e105..20963c8 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -302,11 +302,13 @@ int pBat_CmdCopy(char* line)
     }
 
 
-    while (files) {
+    end = files;
+
+    while (end && !(flags & PBAT_COPY_CAT_CANCELED)) {
 
-        status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
+        status |= pBat_CmdCopyFile(end->lpFileName, file[len-1], &flags);
 
-        files = files->lpflNext;
+        end = end->lpflNext;
     }
 
 end:
@@ -350,8 +352,10 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
     }
 
+    /* When concatenating files, the question has already been answered for
+       the first one */
     if (pBat_FileExists(pBat_EsToChar(dest_real))
-        && !(*flags & PBAT_COPY_SILENCE)) {
+        && !(*flags & (PBAT_COPY_SILENCE | PBAT_COPY_CAT_2ND))) {
 
         ok = pBat_AskConfirmation(PBAT_ASK_YNA | PBAT_ASK_DEFAULT_N
                                     | PBAT_ASK_INVALID_REASK, NULL,
@@ -369,6 +373,8 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
                 break;
 
             case PBAT_ASK_NO:
+                if (*flags & PBAT_COPY_CAT)
+                    *flags |= PBAT_COPY_CAT_CANCELED;
                 ok=0;
 
         }
diff --git a/pbat/command/pBat_Copy.h b/pbat/command/pBat_Copy.h
index 62de3bf..ea3894a 100644
--- a/pbat/command/pBat_Copy.h
+++ b/pbat/command/pBat_Copy.h
@@ -34,5 +34,6 @@ int pBat_CatFile(const char* file, const char* dest, int* flags);
 #define PBAT_COPY_RECURSIVE 0x08
 #define PBAT_COPY_CAT       0x10
 #define PBAT_COPY_CAT_2ND   0x20
+#define PBAT_COPY_CAT_CANCELED 0x40
 
 #endif // PBAT_CMD_ECHO_H
-- 
2.43.0


From 933f536ef539903c7d820a5c5c91dd925640efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 068/165] fix: COPY of a file to itself emptied it, or never
 ended when concatenating

---
 pbat/command/pBat_Copy.c | 52 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 20963c8..8a54090 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -97,6 +97,21 @@ int pBat__EndWithDirectoryMark(const char* dir)
     return PBAT_TEST_SEPARATOR(c);
 }
 
+/* Do both names designate the same file ? */
+static int pBat_IsSameFile(const char* file, const char* other)
+{
+#ifdef WIN32
+    return !stricmp(file, other);
+#else
+    struct stat info, info2;
+
+    return !stat(file, &info)
+            && !stat(other, &info2)
+            && info.st_dev == info2.st_dev
+            && info.st_ino == info2.st_ino;
+#endif
+}
+
 int pBat_CmdCopy(char* line)
 {
 	FILELIST *files=NULL,
@@ -302,6 +317,24 @@ int pBat_CmdCopy(char* line)
     }
 
 
+    /* The destination may be the first of the files to be concatenated, but
+       not any other, since its content would be lost */
+    if (flags & PBAT_COPY_CAT) {
+
+        for (end = files; end; end = end->lpflNext) {
+
+            if (end != files && pBat_IsSameFile(end->lpFileName, file[len-1])) {
+
+                pBat_ShowErrorMessage(PBAT_UNABLE_CAT, end->lpFileName, 0);
+                status = PBAT_UNABLE_CAT;
+                goto end;
+
+            }
+
+        }
+
+    }
+
     end = files;
 
     while (end && !(flags & PBAT_COPY_CAT_CANCELED)) {
@@ -392,7 +425,14 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
         } else {
 
-            status = pBat_CopyFile(file, dest_real->str);
+            if (pBat_IsSameFile(file, dest_real->str)) {
+
+                /* this would empty the file */
+                pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+                status = PBAT_UNABLE_COPY;
+
+            } else
+                status = pBat_CopyFile(file, dest_real->str);
 
         }
 
@@ -629,6 +669,16 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     }
 
+    if (!(*flags & PBAT_COPY_CAT_2ND) && pBat_IsSameFile(file, dest)) {
+
+        /* the destination already begins with this file */
+        *flags |= PBAT_COPY_CAT_2ND;
+        close(old);
+
+        return PBAT_NO_ERROR;
+
+    }
+
 #ifdef WIN32
     attr = O_WRONLY | O_BINARY | O_CREAT ;
 #else
-- 
2.43.0


From a7ade82dbb8ff10c1830a31c03e31a08f1bdbd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 069/165] fix: MOVE /R tried to remove directories of the
 destination instead of those of the source

---
 pbat/command/pBat_Copy.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 8a54090..3222ec3 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -513,9 +513,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
-
-            status = pBat_Rmdir(real_dest->str);
+            status |= pBat_Rmdir(item->lpFileName);
 
             item = item->lpflNext;
 
-- 
2.43.0


From ff6b1bb4544ba837595b04f52c6aaab45004eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 070/165] fix: COPY /R and MOVE /R failed on files whose
 directory had not been selected

---
 pbat/command/pBat_Copy.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 3222ec3..9374cb9 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -246,7 +246,7 @@ int pBat_CmdCopy(char* line)
     if (flags & PBAT_COPY_RECURSIVE) {
 
         for (i=0;i < len - 1 ; i++)
-            status = pBat_CmdCopyRecursive(file[i],
+            status |= pBat_CmdCopyRecursive(file[i],
                         file[len-1], attr, &flags);
 
         goto end;
@@ -451,6 +451,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
              *item;
 
     ESTR* real_dest = pBat_EsInit_Cached();
+    char* delim;
 
     int  status = 0;
     size_t size  = pBat_GetStaticLength(file);
@@ -501,6 +502,16 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
     while (item) {
 
         pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size));
+
+        /* the directory itself may not match */
+        if ((delim = strrchr(real_dest->str, *PBAT_DEF_DELIMITER))) {
+
+            *delim = '\0';
+            status |= pBat_CmdMakeDirs(real_dest->str);
+            *delim = *PBAT_DEF_DELIMITER;
+
+        }
+
         status |= pBat_CmdCopyFile(item->lpFileName, real_dest->str, flags);
 
         item = item->lpflNext;
-- 
2.43.0


From c82949814376fd0f6790f2295645da77ad466457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 071/165] fix: COPY wrote wrong data after a write that was
 only partly done

---
 pbat/command/pBat_Copy.c | 68 +++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 42 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 9374cb9..2f76ef3 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -566,7 +566,7 @@ int pBat_CopyFile(const char* file, const char* dest)
 {
     int old, new;
     char buf[2048];
-    size_t count, writen;
+    int count, writen, part;
     struct stat info;
 
 #ifdef WIN32
@@ -607,34 +607,26 @@ int pBat_CopyFile(const char* file, const char* dest)
 
     while ((count = read(old, buf, sizeof(buf))) != 0) {
 
-        if (count == -1) {
-
+        writen = 0;
 
-            close(old);
-            close(new);
+        while (count != -1 && writen < count) {
 
-            pBat_ShowErrorMessage(PBAT_UNABLE_COPY
-                                    | PBAT_PRINT_C_ERROR, file, 0);
-
-            return PBAT_UNABLE_COPY;
+            if ((part = write(new, buf + writen, count - writen)) == -1)
+                count = -1;
+            else
+                writen += part;
 
         }
 
-        writen = 0;
-
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
-
-            if (writen == -1) {
-
-                close(old);
-                close(new);
+        if (count == -1) {
 
-                pBat_ShowErrorMessage(PBAT_UNABLE_COPY
-                                        | PBAT_PRINT_C_ERROR, file, 0);
+            pBat_ShowErrorMessage(PBAT_UNABLE_COPY
+                                    | PBAT_PRINT_C_ERROR, file, 0);
 
-                return PBAT_UNABLE_COPY;
+            close(old);
+            close(new);
 
-            }
+            return PBAT_UNABLE_COPY;
 
         }
 
@@ -657,7 +649,7 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 {
     int old, new, attr;
     char buf[2048];
-    size_t count, writen;
+    int count, writen, part;
     struct stat info;
 
 #ifdef WIN32
@@ -721,34 +713,26 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     while ((count = read(old, buf, sizeof(buf))) != 0) {
 
-        if (count == -1) {
-
+        writen = 0;
 
-            close(old);
-            close(new);
+        while (count != -1 && writen < count) {
 
-            pBat_ShowErrorMessage(PBAT_UNABLE_CAT
-                                    | PBAT_PRINT_C_ERROR, file, 0);
-
-            return PBAT_UNABLE_CAT;
+            if ((part = write(new, buf + writen, count - writen)) == -1)
+                count = -1;
+            else
+                writen += part;
 
         }
 
-        writen = 0;
-
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
-
-            if (writen == -1) {
-
-                close(old);
-                close(new);
+        if (count == -1) {
 
-                pBat_ShowErrorMessage(PBAT_UNABLE_CAT
-                                        | PBAT_PRINT_C_ERROR, file, 0);
+            pBat_ShowErrorMessage(PBAT_UNABLE_CAT
+                                    | PBAT_PRINT_C_ERROR, file, 0);
 
-                return PBAT_UNABLE_CAT;
+            close(old);
+            close(new);
 
-            }
+            return PBAT_UNABLE_CAT;
 
         }
 
-- 
2.43.0


From 9a378d1a288a8bf48e8ff48f8c2c644beb143b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 072/165] fix: RD reported success when the directory could not
 be removed

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..25c1205 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From c4122c5fc58dfe94a98e3637af34718954e1e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 073/165] fix: DEL /P deleted files without asking

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..194dba7 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice = 0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From df6519015cbb9c16a50d4823fb6cab2b59af31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 074/165] fix: REN destroyed the file that already had the new
 name

---
 pbat/command/pBat_Ren.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 2077b36..cf84c29 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -108,6 +108,18 @@ int pBat_CmdRen(char* lpLine)
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
 
+#ifndef WIN32
+			/* rename() silently replaces existing files */
+			if (pBat_FileExists(lpFileDest)
+                && strcmp(lpFileName, lpFileDest)) {
+
+				pBat_ShowErrorMessage(PBAT_UNABLE_RENAME, lpFileName, FALSE);
+				pBat_EsFree_Cached(lpEstr);
+				return PBAT_UNABLE_RENAME;
+
+			}
+#endif
+
 			if (rename(lpFileName, lpFileDest)) {
 
 				pBat_ShowErrorMessage(PBAT_UNABLE_RENAME, lpFileName, FALSE);
-- 
2.43.0


From 09ceae87fed7f40076c6f99dedb151e786cc20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 075/165] fix: recursive searches left the tree through
 symbolic links: RD /S and DEL /S deleted files elsewhere

---
 libpbat/dir/pBat_Dir.c      |  6 ++++--
 libpbat/file/pBat_StdFile.c | 11 +++++++++++
 libpbat/libpBat.h           |  6 ++++++
 pbat/command/pBat_Rmdir.c   | 10 +++++++++-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 09eb679..6b8ee8e 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -443,8 +443,10 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                             goto end;
                     }
 
+                    /* never leave the tree through symbolic links */
                     if ((arg->flags & PBAT_SEARCH_RECURSIVE)
-                        && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))) {
+                        && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))
+                        && !pBat_IsSymLink(path->str)) {
 
                         arg->files = ret;
                         ret = pBat_GetMatch(path->str, item, arg);
@@ -498,7 +500,7 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                 pBat_EsCpy(path, ent->d_name);
             }
 
-            if (pBat_DirExists(path->str)) {
+            if (pBat_DirExists(path->str) && !pBat_IsSymLink(path->str)) {
 
                 /* if it does not match *but* we are in recursive mode, browse
                    anyway */
diff --git a/libpbat/file/pBat_StdFile.c b/libpbat/file/pBat_StdFile.c
index 73c235e..a9a04b7 100644
--- a/libpbat/file/pBat_StdFile.c
+++ b/libpbat/file/pBat_StdFile.c
@@ -102,6 +102,17 @@ int pBat_FileExists(const char* ptrName)
 
 }
 
+int pBat_IsSymLink(const char* ptrName)
+{
+    struct stat sStat;
+
+    if (lstat(ptrName, &sStat)==-1)
+        return FALSE;
+
+    return S_ISLNK(sStat.st_mode);
+
+}
+
 #endif
 
 char* pBat_GetFirstExistingFile(char** files)
diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index 1967cd7..5c28894 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -485,6 +485,12 @@ LIBPBAT const char* pBat_ConsoleCP2Encoding(int cp);
 LIBPBAT int pBat_FileExists(const char* lpPath);
 LIBPBAT char* pBat_GetFirstExistingFile(char** files);
 LIBPBAT int pBat_DirExists(const char* lpPath);
+
+#ifndef WIN32
+LIBPBAT int pBat_IsSymLink(const char* lpPath);
+#else
+#define pBat_IsSymLink(path) (0)
+#endif
 LIBPBAT int pBat_SetFileMode(const char* file, int attr);
 LIBPBAT int pBat_GetExePath(char* lpBuf, size_t iBufSize);
 LIBPBAT int pBat_GetExeFilename(char* lpBuf, size_t iBuffSize);
diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 25c1205..c290d53 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -166,6 +166,14 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
+            if (pBat_IsSymLink(name[i])) {
+
+                /* do not touch what the link designates */
+                status |= pBat_CmdRmdirFile(name[i], param, &choice);
+                continue;
+
+            }
+
             if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
@@ -269,7 +277,7 @@ int pBat_CmdRmdirFile(char* dir, int param, int* choice)
 int pBat_Rmdir(const char* dir)
 {
 
-    if (rmdir(dir)) {
+    if (pBat_IsSymLink(dir) ? remove(dir) : rmdir(dir)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR
                                 | PBAT_PRINT_C_ERROR, dir, 0);
-- 
2.43.0


From abdb5e26116a193c06c23d7c85ce2f4417e8a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 076/165] fix: attributes of symbolic links that lead nowhere
 were not initialised

---
 libpbat/dir/pBat_Dir.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 6b8ee8e..0826d3e 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -101,6 +101,13 @@ char* pBat_GetNextLevel(char* up, char* base, int* jok)
     return NULL;
 }
 
+/* symbolic links that lead nowhere are what they are */
+#ifdef WIN32
+#define PBAT_STAT(name, st) stat(name, st)
+#else
+#define PBAT_STAT(name, st) (stat(name, st) && lstat(name, st))
+#endif
+
 static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t* arg)
 {
     FILELIST *file,
@@ -111,7 +118,7 @@ static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t*
         snprintf(block.lpFileName, FILENAME_MAX, "%s", name);
 
         if (!(arg->flags & PBAT_SEARCH_NO_STAT)) {
-            stat(name, &(block.stFileStats));
+            PBAT_STAT(name, &(block.stFileStats));
 
 #ifdef WIN32
 
@@ -137,7 +144,7 @@ static FILELIST* pBat_AddMatch(char* name, FILELIST* files, struct match_args_t*
     /* fixme : doing something less time-consuming is
        probably possible */
     if (!(arg->flags & PBAT_SEARCH_NO_STAT)) {
-        stat(name, &(file->stFileStats));
+        PBAT_STAT(name, &(file->stFileStats));
 
 #ifdef WIN32
 
-- 
2.43.0


From 5ae16246f89c96f75d27cb3159f55d0b3858fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 077/165] fix: attributes -I and -S selected the opposite

---
 libpbat/dir/pBat_Attr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 237d15e..89174c7 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -85,13 +85,13 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
     if (wAttr & PBAT_CMD_ATTR_SYSTEM) {
         iResult=iAttributes & PBAT_FILE_SYSTEM;
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_SYSTEM_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
     if (wAttr & PBAT_CMD_ATTR_VOID) {
         iResult=(pBat_GetFileSize(lpflList)==0);
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_VOID_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
-- 
2.43.0


From caacde40c0d75ad76cd2ec24a725370c82744113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 078/165] fix: sockets and block devices were taken for
 directories

---
 libpbat/dir/pBat_Attr.c | 2 +-
 libpbat/libpBat.h       | 2 ++
 pbat/command/pBat_Dir.c | 2 +-
 pbat/core/pBat_Var.c    | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 89174c7..354e3f4 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -97,7 +97,7 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
 
     if (wAttr & PBAT_CMD_ATTR_DIR) {
-        iResult=iAttributes & PBAT_FILE_DIR;
+        iResult=PBAT_IS_DIR(iAttributes);
         if (wAttr & PBAT_CMD_ATTR_DIR_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index 5c28894..d9fb0eb 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -63,6 +63,7 @@
     #define PBAT_FILE_READONLY FILE_ATTRIBUTE_READONLY
     #define PBAT_FILE_SYSTEM FILE_ATTRIBUTE_SYSTEM
     #define PBAT_FILE_DIR FILE_ATTRIBUTE_DIRECTORY
+    #define PBAT_IS_DIR(mode) ((mode) & PBAT_FILE_DIR)
 
     /*
      * provide some wrappers over the windows-defined constants
@@ -92,6 +93,7 @@
     #include <pthread.h>
 
     #define PBAT_FILE_DIR S_IFDIR
+    #define PBAT_IS_DIR(mode) S_ISDIR(mode) /* file types are not flags */
     #define PBAT_FILE_EXECUTE S_IXUSR
     #define PBAT_FILE_READ S_IRUSR
     #define PBAT_FILE_WRITE S_IWUSR
diff --git a/pbat/command/pBat_Dir.c b/pbat/command/pBat_Dir.c
index 3b5bc9a..d946ab2 100644
--- a/pbat/command/pBat_Dir.c
+++ b/pbat/command/pBat_Dir.c
@@ -177,7 +177,7 @@ int pBat_CmdDir(char* lpLine)
             if (!bSimple) {
 
                 strcpy(lpType, "       ");
-                if (pBat_GetFileMode(item) & PBAT_FILE_DIR) {
+                if (PBAT_IS_DIR(pBat_GetFileMode(item))) {
                     lpType[0]='D';
                     iDirNb++;
 
diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 3cf2356..ffe4ebf 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -578,7 +578,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 
 			case 'a':
 				sprintf(lpBuffer, "       %c", (cFlag[i+1]!=0 ? '\t': '\0'));
-				if (stFileInfo.st_mode & PBAT_FILE_DIR) lpBuffer[0]='D';
+				if (PBAT_IS_DIR(stFileInfo.st_mode)) lpBuffer[0]='D';
 				if (stFileInfo.st_mode & PBAT_FILE_READONLY) lpBuffer[2]='R';
 				if (stFileInfo.st_mode & PBAT_FILE_HIDDEN) lpBuffer[3]='H';
 				if (stFileInfo.st_mode & PBAT_FILE_SYSTEM) lpBuffer[4]='S';
-- 
2.43.0


From c3d37c21b47310afb875840ac4f4bfab37e7e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 079/165] fix: RD /S deleted plain files

---
 pbat/command/pBat_Rmdir.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c290d53..e10736f 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -166,7 +166,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
-            if (pBat_IsSymLink(name[i])) {
+            if (pBat_IsSymLink(name[i]) && pBat_DirExists(name[i])) {
 
                 /* do not touch what the link designates */
                 status |= pBat_CmdRmdirFile(name[i], param, &choice);
@@ -174,6 +174,14 @@ int pBat_CmdRmdir(char* lpLine)
 
             }
 
+            if (pBat_FileExists(name[i])) {
+
+                /* this is not a directory */
+                status |= pBat_Rmdir(name[i]);
+                continue;
+
+            }
+
             if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
@@ -277,7 +285,7 @@ int pBat_CmdRmdirFile(char* dir, int param, int* choice)
 int pBat_Rmdir(const char* dir)
 {
 
-    if (pBat_IsSymLink(dir) ? remove(dir) : rmdir(dir)) {
+    if (pBat_IsSymLink(dir) && pBat_DirExists(dir) ? remove(dir) : rmdir(dir)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR
                                 | PBAT_PRINT_C_ERROR, dir, 0);
-- 
2.43.0


From 554c1ccbb4ef58a1654569a9fb9e3616182ba9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 080/165] fix: REN replaced empty directories and symbolic
 links

---
 pbat/command/pBat_Ren.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index cf84c29..e00261a 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -110,7 +110,9 @@ int pBat_CmdRen(char* lpLine)
 
 #ifndef WIN32
 			/* rename() silently replaces existing files */
-			if (pBat_FileExists(lpFileDest)
+			if ((pBat_FileExists(lpFileDest)
+                    || pBat_DirExists(lpFileDest)
+                    || pBat_IsSymLink(lpFileDest))
                 && strcmp(lpFileName, lpFileDest)) {
 
 				pBat_ShowErrorMessage(PBAT_UNABLE_RENAME, lpFileName, FALSE);
-- 
2.43.0


From f9c8f0a5b6658de150775d482cb3e485b8c8646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 081/165] fix: DEL /A deleted read-only files without /F

---
 pbat/command/pBat_Del.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 194dba7..78bc92f 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -239,7 +239,7 @@ int pBat_CmdDel(char* lpLine)
     while (end) {
 
         if (!(param & PBAT_DELETE_READONLY)
-            && (pBat_GetFileMode(end) & PBAT_FILE_READONLY)) {
+            && pBat_CheckFileAttributes(PBAT_ATTR_READONLY, end)) {
 
             /* Skip read-only files if the user did not specified 'force' */
             end = end->lpflNext;
-- 
2.43.0


From 1a2c8c37b647eadc9d7a2711140e9527210a8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 082/165] fix: RD /S left links to directories it had already
 removed

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index e10736f..7d149c5 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -285,7 +285,7 @@ int pBat_CmdRmdirFile(char* dir, int param, int* choice)
 int pBat_Rmdir(const char* dir)
 {
 
-    if (pBat_IsSymLink(dir) && pBat_DirExists(dir) ? remove(dir) : rmdir(dir)) {
+    if (pBat_IsSymLink(dir) && !pBat_FileExists(dir) ? remove(dir) : rmdir(dir)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR
                                 | PBAT_PRINT_C_ERROR, dir, 0);
-- 
2.43.0


From c1f75e85f0d01699ba22f01ccdf20d0ec55cfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 083/165] fix: names were used after their memory had been
 moved

---
 pbat/core/pBat_FilePath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..a3d9c6a 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -146,7 +146,7 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
     }
 
     /* need to cat with a lpCurrentDir */
-    len = strlen(p) + 1;
+    len = strlen(full->str) + 1;
     size = strlen(lpCurrentDir);
 
     if (len + size + 1 > full->len) {
@@ -159,7 +159,7 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             -1);
     }
 
-    memmove(full->str + size + 1, p, len);
+    memmove(full->str + size + 1, full->str, len);
     memcpy(full->str, lpCurrentDir, size);
     *(full->str + size) = *(PBAT_DEF_DELIMITER); /* DEF_DELIMITER is a string literal */
 
-- 
2.43.0


From c0b1521d77f3a0695b5b6958bb9ce1338131a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 084/165] fix: the name nul was not translated for TYPE, MD and
 others

---
 pbat/core/pBat_FilePath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index a3d9c6a..52773e4 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -116,6 +116,13 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
     size_t len, size;
     const char* p = TRANS(full->str);
 
+    if (p != full->str) {
+
+        pBat_EsCpy(full, p);
+        p = full->str;
+
+    }
+
     if (PBAT_TEST_ABSOLUTE_PATH(p)) {
 
 #ifdef WIN32
-- 
2.43.0


From 858967a307f2becc5fca6bc7a7632a67f3a80ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 085/165] fix: CMDLYCORRECT scripts: a line that became longer
 by its variables was read after being freed

---
 pbat/core/pBat_Read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index c7982b1..149128c 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -188,10 +188,10 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 	while (!(res=fn_getline(lpesTmp, pFile))) {
 
-		lpCh=pBat_SkipAllBlanks(pBat_EsToChar(lpesTmp));
-
         pBat_ReplaceVars(lpesTmp);
 
+		lpCh=pBat_SkipAllBlanks(pBat_EsToChar(lpesTmp));
+
 		/* split comments label and void lines from input */
 		if (*lpCh==':' || *lpCh=='\0' || *lpCh=='\n') {
 
-- 
2.43.0


From 2b5da956cb6ba514311fe5a46da19c7eee4d5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 086/165] fix: DEF accepted an empty name and then expanded
 every command for ever

---
 pbat/command/pBat_Def.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Def.c b/pbat/command/pBat_Def.c
index 4c1f123..7df6006 100644
--- a/pbat/command/pBat_Def.c
+++ b/pbat/command/pBat_Def.c
@@ -90,7 +90,7 @@ int pBat_CmdDef(char* lpLine, PARSED_LINE** lpplLine)
         pBat_ListDefs(lpLine, strlen(lpLine), lpclCommands);
         goto end;
 
-	} else if (!(lpCh=pBat_SearchChar(lpLine, '='))) {
+	} else if (!(lpCh=pBat_SearchChar(lpLine, '=')) || lpCh == lpLine) {
 
 		pBat_ShowErrorMessage(PBAT_UNEXPECTED_ELEMENT,
 		                      lpLine,
-- 
2.43.0


From 0882b297a1d55aabd5b17e052c997c525cc183dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 087/165] fix: shifts by negative or large counts and overflows
 in expressions were undefined

---
 libfasteval/lib/parser.y | 21 +++++++++++++++++----
 pbat/command/pBat_Set.c  |  5 +++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 70cb2a6..9098d04 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -80,7 +80,8 @@ extern void input_reset (void);
 #define INT_FLOAT_OP(op, result, a, b) \
     (result).is_double = (a).is_double || (b).is_double; \
     if (!(result).is_double) \
-        (result).i = (a).i op (b).i; \
+        (result).i = (long long)((unsigned long long)(a).i \
+                                    op (unsigned long long)(b).i); \
     (result).d = (a).d op (b).d;
 
 
@@ -90,6 +91,18 @@ extern void input_reset (void);
         (result).i = (a).i op (b).i; \
     (result).d = (double)((int)(a).d op  (int)(b).d);
 
+/* Shifts, where only counts up to the size of the type are defined */
+#define INT_SHL(type, a, b) \
+    ((type)((unsigned type)(a) << ((b) & (8 * sizeof(type) - 1))))
+#define INT_SHR(type, a, b) \
+    ((type)(a) >> ((b) & (8 * sizeof(type) - 1)))
+
+#define SHIFT_OP(shift, result, a, b) \
+    (result).is_double = (a).is_double || (b).is_double; \
+    if (!(result).is_double) \
+        (result).i = shift(long long, (a).i, (b).i); \
+    (result).d = (double)shift(int, (int)(a).d, (int)(b).d);
+
 /* Whether a 'op' b has an integer result, for op / and %. If it has none
    (division by 0), the operation is performed on doubles. */
 #define INT_DIVISIBLE(a, b) \
@@ -184,16 +197,16 @@ expression
   INT_OP(^, $$, $1, $3)
 }
 | expression '>' expression {
-  INT_OP(>>, $$, $1, $3)
+  SHIFT_OP(INT_SHR, $$, $1, $3)
 }
 |  expression '<' expression {
-  INT_OP(<<, $$, $1, $3)
+  SHIFT_OP(INT_SHL, $$, $1, $3)
 }
 | '-' expression %prec NEG {
   $$.is_double = $2.is_double;
 
   if (!$2.is_double)
-    $$.i = -($2.i);
+    $$.i = (long long)(-(unsigned long long)$2.i);
   $$.d = - $2.d;
 
 }
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index f26ac86..51c23cb 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -536,9 +536,10 @@ int pBat_CmdSetEval(ESTR* lpExpression)
                 dVal=_pBat_SetGetVar(lpVarName);
 
                 if (cLeftAssign == '<')
-                    dVal = OPERATE_INT(dVal, <<, dResult);
+                    dVal = (double)(int)((unsigned int)(int)dVal
+                                                << ((int)dResult & 31));
                 else
-                    dVal = OPERATE_INT(dVal, >>, dResult);
+                    dVal = (double)((int)dVal >> ((int)dResult & 31));
 
                 break;
 
-- 
2.43.0


From 297391723ba5fa1c6582282d90b8d0aeb5ef3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 088/165] fix: a command that is void once expanded was run
 again for ever

---
 pbat/core/pBat_Run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 6ff6b5c..2a6a74f 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -658,9 +658,16 @@ int pBat_RunExternalCommand(char* lpCommandLine, int* error)
 
     size_t nb=0;
 
-    if ((list = pBat_GetParamList(lpCommandLine)) == NULL)
+    if ((list = pBat_GetParamList(lpCommandLine)) == NULL) {
+
+        /* nothing to run, even if the line had to be expanded first */
+        pBat_EsFree_Cached(lpCmdLine);
+        *error = 0;
+
         return 0;
 
+    }
+
     item = list;
 
     while (item) {
-- 
2.43.0


From df908abe553a34c171ab624020df1e4458c3416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 089/165] fix: a program found once its line had been expanded
 was run again for ever

---
 pbat/core/pBat_Run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 2a6a74f..286bd25 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -707,6 +707,9 @@ int pBat_RunExternalCommand(char* lpCommandLine, int* error)
 
 	}
 
+	/* it is found, maybe once the line had been expanded */
+	*error = 0;
+
 	/* check if "command" is a batch file */
 	pBat_SplitPath(lpFileName, NULL, NULL, NULL, lpExt);
 
-- 
2.43.0


From 79d48519c01fec8c74197aaf022eb36a9f58edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 090/165] fix: REN overflowed its buffer by one character

---
 pbat/command/pBat_Ren.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index e00261a..f9edccd 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -103,7 +103,7 @@ int pBat_CmdRen(char* lpLine)
 			}
 
 			/* cat with new name */
-			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest));
+			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest)-1);
 			lpFileDest[FILENAME_MAX-1]='\0';
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
-- 
2.43.0


From 8330f9da61db9e0954f8dfcc32f4aeedc41455d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 091/165] fix: PECHO without anything read behind its line

---
 pbat/command/pBat_Pecho.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Pecho.c b/pbat/command/pBat_Pecho.c
index 8bc36b7..045e014 100644
--- a/pbat/command/pBat_Pecho.c
+++ b/pbat/command/pBat_Pecho.c
@@ -58,7 +58,7 @@ int pBat_CmdPecho(char* lpLine)
 
 	lpEsParameter=pBat_EsInit_Cached();
 
-    pBat_GetEndOfLine(lpLine+1, lpEsParameter);
+    pBat_GetEndOfLine(*lpLine ? lpLine+1 : lpLine, lpEsParameter);
 
     if (!ispunct(*lpLine) &&
         !strcmp(lpEsParameter->str, "/?")) {
-- 
2.43.0


From 63a5ce1e43071e6c99d4a08a6a8ea3fb52c423b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 092/165] fix: MORE divided by zero when told to use tabs of no
 width

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..87a2ab6 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -104,7 +104,7 @@ int pBat_CmdMore(char* line)
 
             tabsize = strtol(ptr, &ret, 0);
 
-            if (*ret) {
+            if (*ret || tabsize <= 0) {
 
                 pBat_ShowErrorMessage(PBAT_INVALID_NUMBER,
                                         ptr,
-- 
2.43.0


From 46e3c0bb73cadc86788f52af65bac234151f6356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 093/165] fix: a line that contains a NUL swallowed all that
 follows it

---
 libpbat/estr/pBat_Estr.c | 61 +++++++++++++---------------------------
 1 file changed, 20 insertions(+), 41 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c95ebd9..2aabe69 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -199,66 +199,45 @@ LIBPBAT int pBat_EsFree(ESTR* ptrESTR)
 
 LIBPBAT int pBat_EsGet(ESTR* ptrESTR, FILE* ptrFile)
 {
-    int iCurrentL=0;
-
     size_t iTotalBytesRead=0;
 
-    char *crLf=NULL,
-         *ptrCursor=NULL,
-         *lpResult;
-
-    ptrCursor=ptrESTR->str;
-    iCurrentL=ptrESTR->len-1;
-
-    while (1)
-    {
-
-        lpResult=fgets(ptrCursor, iCurrentL+1, ptrFile);
-
-        if(lpResult==NULL) {
-
-            /* this means we will continue because there is no more
-               stuff to get from the file */
-
-            break;
-
-        } else {
+    int c;
 
-            /* this could appear to be the number of byte read
-               however, it is just used to know whether the
-               function have read some text there */
+    char* lpResult;
 
-            iTotalBytesRead+=(size_t)lpResult;
+    /* '\0' may occur in what is read, so that the end of the line can not
+       be searched in the string afterwards */
+    while ((c=fgetc(ptrFile)) != EOF) {
 
-        }
-
-        crLf=strchr(ptrESTR->str, '\n');
-
-        if (crLf!=NULL)
-            break;
-
-        iCurrentL=ptrESTR->len;
+        if (iTotalBytesRead + 1 >= (size_t)ptrESTR->len) {
 
-        ptrESTR->len=ptrESTR->len*2;
+            lpResult=realloc(ptrESTR->str, (size_t)ptrESTR->len*2);
 
-        crLf=realloc(ptrESTR->str, ptrESTR->len);
-
-        if (crLf==NULL) {
+            if (lpResult==NULL) {
                 /* make if more fault tolerant, abort the loop,
                    and just read a part of the real line (not
                    so bad however). */
 
-                ptrESTR->len=iCurrentL;
+                ptrESTR->str[iTotalBytesRead]='\0';
 
                 return -1;
+            }
+
+            ptrESTR->str=lpResult;
+            ptrESTR->len=ptrESTR->len*2;
+
         }
 
-        ptrESTR->str=crLf;
+        ptrESTR->str[iTotalBytesRead++]=(char)c;
 
-        ptrCursor=ptrESTR->str+iCurrentL-1;
+        if (c=='\n')
+            break;
 
     }
 
+    if (iTotalBytesRead)
+        ptrESTR->str[iTotalBytesRead]='\0';
+
     switch (_pBat_NewLine) {
 
         case PBAT_NEWLINE_WINDOWS :
-- 
2.43.0


From de8ac64a1426bf983c544267122d49d31b140737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 094/165] fix: FOR /R and FOR /D searched the whole system
 without a folder and failed with blanks in it

---
 pbat/command/pBat_For.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index af4728c..c1aec17 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1623,17 +1623,35 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 
 	};
 
-	ESTR* lpCommandLine=pBat_EsInit_Cached();
+	ESTR *lpCommandLine=pBat_EsInit_Cached(),
+         *lpParam=pBat_EsInit_Cached();
+	char *lpToken=lpMask->str;
 
 	/* create equivalent for loop using for / */
 	pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
 	pBat_EsCat(lpCommandLine, lpAttribute);
-	pBat_EsCat(lpCommandLine, " ");
 	pBat_Canonicalize(lpDir->str);
-	pBat_EsCatE(lpCommandLine, lpDir);
-	pBat_EsCat(lpCommandLine, "/");
-	pBat_EsCatE(lpCommandLine, lpMask);
+
+	while (lpToken=pBat_GetNextParameterEs(lpToken, lpParam)) {
+
+		/* every mask is searched in the directory, or in the current one if
+		   none is given */
+		pBat_EsCat(lpCommandLine, " \"");
+
+		if (*lpDir->str) {
+
+			pBat_EsCatE(lpCommandLine, lpDir);
+			pBat_EsCat(lpCommandLine, "/");
+
+		}
+
+		pBat_EsCatE(lpCommandLine, lpParam);
+		pBat_EsCat(lpCommandLine, "\"");
+
+	}
+
 	pBat_EsCat(lpCommandLine, "'");
+	pBat_EsFree_Cached(lpParam);
 
 	if (pBat_CmdForF(lpCommandLine, lpplLine, &forInfo))
 		goto error;
-- 
2.43.0


From 758f6b29c33ec88e3951e6c81b7bb0836dc93065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 095/165] fix: MOVE /? crashed for want of a help text

---
 pbat/lang/pBat_ShowHelp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 5a83b3e..c6f78e0 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -65,6 +65,10 @@ void pBat_LoadInternalHelp(void)
 	    =gettext("Copy file(s) to another location.\n"
 	             "Usage: COPY [/R] [/-Y | /Y] [/A[:]attributes] source [+] ... destination\n");
 
+	lpInternalHelp[PBAT_HELP_MOVE]
+	    =gettext("Move file(s) to another location.\n"
+	             "Usage: MOVE [/R] [/-Y | /Y] [/A[:]attributes] source [...] destination\n");
+
 	lpInternalHelp[PBAT_HELP_CALL]
 	    =gettext("Call a script or a label from the current context.\n"
 	             "Usage: CALL [/e] [file] [:label] [parameters ...]\n");
-- 
2.43.0


From dd89842a3a4d2ac0f8a991ceadb63f9a7fb48ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 096/165] fix: lines whose blocks are not closed were read
 behind their end or made the program abort

---
 pbat/core/pBat_Args.c | 13 +++++++++++--
 pbat/core/pBat_Run.c  | 10 ++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index faad1a7..1b0b9b2 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -144,7 +144,15 @@ char* pBat_GetBlockLine(char* pLine, BLOCKINFO* pBk)
 {
     char *pEnd;
 
-    pEnd = pBat_GetBlockLineEnd(pLine);
+    if ((pEnd = pBat_GetBlockLineEnd(pLine)) == NULL) {
+
+        /* the blocks of the line are malformed, take all of it */
+        pEnd = pLine;
+
+        while (*pEnd != '\n' && *pEnd != '\0')
+            pEnd++;
+
+    }
 
     if (*pLine=='(')
         pLine++;
@@ -171,7 +179,8 @@ char* pBat_GetNextBlockEs(char* lpLine, ESTR* lpReturn)
 	/* replace delayed expansion */
 	pBat_DelayedExpand(lpReturn);
 
-	return lpNext+1;
+	/* there is nothing to skip if the block lacks its end */
+	return *lpNext ? lpNext+1 : lpNext;
 
 }
 
diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 286bd25..b9e1daa 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -587,8 +587,13 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
 
             lpBlockEnd = pBat_SkipBlanks(lpBlockEnd);
 
-            lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd);
-            assert(lpBlockEnd);
+            if ((lpBlockEnd = pBat_GetBlockLineEnd(lpBlockEnd)) == NULL) {
+
+                pBat_ShowErrorMessage(PBAT_NONCLOSED_BLOCKS, NULL, FALSE);
+                iErrorLevel = PBAT_NONCLOSED_BLOCKS;
+                goto end;
+
+            }
 
             if (*lpBlockEnd == '&' || *lpBlockEnd == '|')
                 lpBlockEnd ++;
@@ -631,6 +636,7 @@ int pBat_RunBlock(BLOCKINFO* lpbkInfo)
 
 	}
 
+end:
 	/* releases the lock */
 	pBat_SetStreamStackLockState(lppsStreamStack, iOldState);
 
-- 
2.43.0


From 7dfaa80fe18170dcdcf9cc3e15e9b444c71042a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 097/165] fix: parts of long paths were not terminated

---
 pbat/core/pBat_SplitPath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..8bbe457 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -57,7 +57,7 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
 		if (lpDir)
-			strncpy(lpDir, lpToken, _MAX_DIR);
+			snprintf(lpDir, _MAX_DIR, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -78,7 +78,7 @@ void pBat_SplitPath(char* lpPath,
 
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -91,7 +91,7 @@ void pBat_SplitPath(char* lpPath,
 	} else {
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From 9ad236bfb8292f19136ff2002a1a27c262969d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 098/165] fix: size, date and attributes of missing files were
 taken from uninitialised memory

---
 pbat/core/pBat_Var.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index ffe4ebf..8a9ed37 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -369,7 +369,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
          lpFullPath[FILENAME_MAX];
 	char cFlag[PBAT_VAR_MAX_OPTION+1]= {PBAT_ALL_PATH};
 	char lpBuffer[FILENAME_MAX];
-	char bSeekFile=FALSE, bSplitPath=FALSE;
+	char bSeekFile=FALSE, bSplitPath=FALSE, bNoFile=FALSE;
 	char cVarName,
 	     cValidName=TRUE;
 
@@ -493,7 +493,9 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             lpPos=pBat_EsToFullPath(lpRecieve);
 
 
-		stat(lpRecieve->str, &stFileInfo);
+		/* neither size, nor date nor attributes without any file */
+		if (stat(lpRecieve->str, &stFileInfo))
+		    bNoFile = TRUE;
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
@@ -563,11 +565,17 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 				break;
 
 			case 'z':
-				sprintf(lpBuffer, "%d%c", (int)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
+				if (bNoFile)
+				    break;
+
+				sprintf(lpBuffer, "%lld%c", (long long)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
 				pBat_EsCat(lpRecieve, lpBuffer);
 				break;
 
 			case 't':
+				if (bNoFile)
+				    break;
+
 				localtime_r(&stFileInfo.st_atime, &lTime);
 
 				strftime(lpBuffer, sizeof(lpBuffer), "%x %X", &lTime);
@@ -577,6 +585,9 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 				break;
 
 			case 'a':
+				if (bNoFile)
+				    break;
+
 				sprintf(lpBuffer, "       %c", (cFlag[i+1]!=0 ? '\t': '\0'));
 				if (PBAT_IS_DIR(stFileInfo.st_mode)) lpBuffer[0]='D';
 				if (stFileInfo.st_mode & PBAT_FILE_READONLY) lpBuffer[2]='R';
-- 
2.43.0


From e8260f49e82ba4ebe157f05c74d81f834a02f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 099/165] fix: MORE and FIND closed files they could not open

---
 pbat/command/pBat_Find.c | 4 +++-
 pbat/command/pBat_More.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..ad11ede 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -150,7 +150,9 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
 end:
     pBat_EsFree_Cached(lpEsLine);
-    if (name)
+    if (pFile == NULL)
+        ; /* it could not be opened */
+    else if (name)
         fclose(pFile); /* do no close stdin, please */
     else if (isatty(fileno(fInput)))
         clearerr(fInput);
diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 87a2ab6..d25210e 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -303,7 +303,9 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      }
 
 end:
-     if (file != fInput)
+     if (file == NULL)
+        ; /* it could not be opened */
+     else if (file != fInput)
         fclose(file);
      else if (isatty(fileno(fInput)))
         clearerr(fInput);
-- 
2.43.0


From 91018eb6eb372dd0ad8f0cd7d9c07881b680ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 100/165] fix: TYPE lost files when more than two were given

---
 pbat/command/pBat_Type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..22417dc 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext != NULL)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
-- 
2.43.0


From c9a2973439a68bf445c93ef608312b70814c4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 101/165] fix: TYPE wrote the names of files to the standard
 output

---
 pbat/command/pBat_Type.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 22417dc..d18b62f 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -198,7 +198,12 @@ int pBat_CmdType(char* lpLine)
 
             while (pTmp) {
 
-                fprintf(fOutput, "---------- %s" PBAT_NL , pTmp->lpFileName);
+                /* names go to the error output, but have to show up right
+                   before the content of their file */
+                fflush(fOutput);
+                fprintf(fError, "---------- %s" PBAT_NL , pTmp->lpFileName);
+                fflush(fError);
+
                 status |= pBat_TypeFile(pTmp->lpFileName);
 
                 pTmp = pTmp->lpflNext;
-- 
2.43.0


From 99f07a00b8f53c92cf4ba4ce0fa368e812a81060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 102/165] fix: WC did not count a word at the end of a file

---
 pbat/command/pBat_Wc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..b51cb51 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -145,6 +145,10 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    /* the end of the file is the end of the last word too */
+    if (inword)
+        cnt->words ++;
+
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
     if (fd != fileno(fInput)) {
-- 
2.43.0


From 104b1412042340bc2f7f37ac98b1e580522b1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 103/165] fix: WC printed no count for the standard input
 without switches

---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index b51cb51..a23b1f9 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -297,6 +297,10 @@ int pBat_CmdWc(char* line)
         }
     }
 
+    /* Count bytes by default */
+    if (mode == 0)
+        mode = PBAT_WC_BYTES;
+
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
@@ -304,10 +308,6 @@ int pBat_CmdWc(char* line)
         pBat_PrintCounts(mode, &cnt, NULL);
     }
 
-    /* Count bytes by default */
-    if (mode == 0)
-        mode = PBAT_WC_BYTES;
-
     /* Perform count on files */
     item = match;
     while (item) {
-- 
2.43.0


From 293f4769c6aaea94272a521a8e359ca76b3fce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 104/165] fix: WC missed the input that had already been read
 ahead

---
 pbat/command/pBat_Wc.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index a23b1f9..c5672b7 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -64,20 +64,18 @@
 
 int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 {
-    int fd,
-        inword = 0; /* true if within a word */
+    FILE* stream;
+    int inword = 0; /* true if within a word */
     char buf[1024], *pch;
     size_t size;
 
-#ifndef WIN32
-#define O_BINARY 0
-#endif // WIN32
-
     if (file == NULL) {
 
-        fd = fileno(fInput);
+        /* read through fInput, it may hold data that has already been
+           read but that nobody has got yet */
+        stream = fInput;
 
-    } else if ((fd = open(file, O_RDONLY | O_BINARY)) == -1) {
+    } else if ((stream = fopen(file, "rb")) == NULL) {
 
         pBat_ShowErrorMessage(PBAT_FILE_ERROR, file,0);
         return PBAT_FILE_ERROR;
@@ -90,7 +88,7 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
     cnt->words = 0;
     cnt->lines = 0;
 
-    while ((size = read(fd, buf, sizeof(buf))) && size != -1) {
+    while ((size = fread(buf, 1, sizeof(buf), stream))) {
 
         /* add bytes */
         cnt->bytes += size;
@@ -151,8 +149,8 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
-    if (fd != fileno(fInput)) {
-        close(fd);
+    if (stream != fInput) {
+        fclose(stream);
     } else if (isatty(fileno(fInput))) {
         clearerr(fInput);
     }
-- 
2.43.0


From ef7061fa7baf2ee0f7dfad05fe3a494a0d487c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 105/165] fix: WC read behind the name when given nul

---
 pbat/command/pBat_Wc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index c5672b7..08a5bc6 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -246,7 +246,7 @@ int pBat_CmdWc(char* line)
 
         } else {
 
-            if (!PBAT_TEST_ABSOLUTE_PATH(param->str))
+            if (!PBAT_TEST_ABSOLUTE_PATH(TRANS(param->str)))
                 size = strlen(lpCurrentDir) + 1;
             else
                 size = 0;
-- 
2.43.0


From 49806a1f5f3c3e3566a4aafff97f530fe5828d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 106/165] fix: MORE lost blank lines after long ones, broke
 multi-byte characters and counted rows from an uninitialised value

---
 pbat/command/pBat_More.c | 63 ++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index d25210e..3b7ebeb 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -41,7 +41,7 @@
 
 #include "../../config.h"
 
-static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
+static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file, int* blank);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
 int pBat_CmdMore(char* line)
@@ -246,7 +246,8 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
     /* char buf[80]; */
     int status=0,
         ok=1,
-        toprint;
+        blank=0,
+        toprint=23;
 
     if (filename) {
 
@@ -271,12 +272,12 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      if (!(flags & PBAT_MORE_INTERACTIVE)) {
 
         /* if we do not output in a tty, do not perform user interaction */
-        while (pBat_MoreWriteLine(&begin, flags, tabsize, file));
+        while (pBat_MoreWriteLine(&begin, flags, tabsize, file, &blank));
 
      } else {
 
         /* skip lines at beginning */
-        while (begin && pBat_MoreWriteLine(&begin, flags, tabsize, file))
+        while (begin && pBat_MoreWriteLine(&begin, flags, tabsize, file, &blank))
             toprint = 23;
 
         /* run interractive */
@@ -292,7 +293,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
             if (isatty(fileno(fOutput)))
 
             while (toprint -- && ok)
-                ok = pBat_MoreWriteLine(&begin, flags, tabsize, file);
+                ok = pBat_MoreWriteLine(&begin, flags, tabsize, file, &blank);
 
 
             if (pBat_MorePrompt(in, &toprint, &begin, &ok))
@@ -364,16 +365,14 @@ int more_fputc_u8_wrapper (int c, FILE* p)
 }
 #endif
 
-static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
+/* Write a row of the screen, ie. a line or 79 columns of it. blank tells
+   whether the row before was a blank line. */
+static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file, int* blank)
 {
     int c,
         col=0,
         ncol;
 
-    static __thread int blank=0,
-                cr=0; /* a carriot return was included at the end of
-                         the preceding line */
-
     int(*more_fputc)(int,FILE*)=fputc;
 
 #ifdef WIN32
@@ -391,11 +390,11 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
     //printf("Printing line !\n");
 
-    while ((col < 79) && ((c = fgetc(file)) != EOF)) {
+    while ((c = fgetc(file)) != EOF) {
 
         if (c=='\t') {
 
-            blank = 0;
+            *blank = 0;
 
             ncol = tabsize - (col % tabsize);
 
@@ -408,6 +407,10 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
             } else {
 
+                /* the row ends here, and the line too if nothing follows */
+                if ((c = fgetc(file)) != '\n' && c != EOF)
+                    ungetc(c, file);
+
                 more_fputc('\n', fOutput);
 
                 return 1;
@@ -430,7 +433,8 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     while (((c = fgetc(file)) != EOF) && !(c <= '~' && c >= '@'))
                         more_fputc(c, fOutput);
 
-                    more_fputc(c, fOutput);
+                    if (c != EOF)
+                        more_fputc(c, fOutput);
 
                     break;
 
@@ -451,17 +455,14 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
                 if (col == 0) {
 
-                    if (blank && (flags & PBAT_MORE_SQUEEZE))
+                    if (*blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
-                    if (cr)
-                        continue;
-
-                    blank = 1;
+                    *blank = 1;
 
                 } else {
 
-                    blank = 0;
+                    *blank = 0;
 
                 }
 
@@ -471,28 +472,26 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
 
             }
 
-            blank = 0;
-
-            more_fputc(c, fOutput);
-            col ++;
+            if (col >= 79) {
 
-        }
+                /* the row is full, and the line is not over */
+                ungetc(c, file);
+                more_fputc('\n', fOutput);
 
-        cr = 0;
+                return 1;
 
-    }
+            }
 
-    if (c == EOF)
-        return 0;
+            *blank = 0;
 
-    if (col == 79 && c != '\n') {
+            more_fputc(c, fOutput);
+            col ++;
 
-        more_fputc('\n', fOutput);
-        cr = 1;
+        }
 
     }
 
-    return 1;
+    return 0;
 
 }
 
-- 
2.43.0


From 2ffd6eb06df4a86e91cb1c60f1866bab4577e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 107/165] fix: XARGS had its input expanded instead of passing
 it on as it is

---
 pbat/command/pBat_Xargs.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Xargs.c b/pbat/command/pBat_Xargs.c
index b14622d..9675dfc 100644
--- a/pbat/command/pBat_Xargs.c
+++ b/pbat/command/pBat_Xargs.c
@@ -44,6 +44,19 @@
 
 #include "../errors/pBat_Errors.h"
 
+/* Add str to cmdline, escaping what would be expanded when the command runs */
+static void pBat_XargsCat(ESTR* cmdline, const char* str, const char* special)
+{
+    char chr[] = "^?";
+
+    while (*str) {
+
+        chr[1] = *str ++;
+        pBat_EsCat(cmdline, strchr(special, chr[1]) ? chr : chr + 1);
+
+    }
+}
+
 /* XARGS [cmd ...]
 
     Run the command CMD taking arguments on the command line
@@ -81,16 +94,21 @@ int pBat_CmdXargs(char* line)
 
         pBat_RmTrailingNl(param->str);
 
-        if (strpbrk(param->str, " ;,\t")
-            && *(pBat_SkipAllBlanks(param->str)) != '"') {
+        if (*(pBat_SkipAllBlanks(param->str)) == '"') {
+
+            /* already quoted */
+            pBat_EsCat(cmdline, " ");
+            pBat_XargsCat(cmdline, param->str, "^%!");
+
+        } else if (strpbrk(param->str, " ;,\t")) {
 
             pBat_EsCat(cmdline, " \"");
-            pBat_EsCatE(cmdline, param);
+            pBat_XargsCat(cmdline, param->str, "^%!\"");
             pBat_EsCat(cmdline, "\"");
 
         } else {
             pBat_EsCat(cmdline, " ");
-            pBat_EsCatE(cmdline, param);
+            pBat_XargsCat(cmdline, param->str, "^%!\"");
         }
 
     }
-- 
2.43.0


From e37950bbff803e5896746e233bd5b0d9921f2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 108/165] fix: expressions such as ?* did not accept what *
 does

---
 libpbat/dir/pBat_Dir.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 0826d3e..893987b 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -639,6 +639,13 @@ LIBPBAT int pBat_EndWithPattern(const char* restrict match, const char* restrict
 
 }
 
+/* Tell if the jokers regexp begins with accept any sequence: combinations
+   such as "?*" are the same as a single "*" */
+static int pBat_AnySequence(const char* regexp)
+{
+    return memchr(regexp, '*', strspn(regexp, "*?")) != NULL;
+}
+
 LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict match)
 {
 	char* next;
@@ -653,7 +660,9 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
         switch (*regexp) {
 
             case '?':
-                break;
+                if (!pBat_AnySequence(regexp))
+                    break;
+                /* fall through */
 
             case '*':
                 while (*regexp == '*' || *regexp == '?')
@@ -712,8 +721,8 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
     }
 
     /* jokers accept void sequences */
-    while (*regexp == '*')
-        regexp ++;
+    if (pBat_AnySequence(regexp))
+        regexp += strspn(regexp, "*?");
 
     if (*match || *regexp)
         return 0;
@@ -781,7 +790,9 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
         switch (*regexp) {
 
             case '?':
-                break;
+                if (!pBat_AnySequence(regexp))
+                    break;
+                /* fall through */
 
             case '*':
                 while (*regexp == '*' || *regexp == '?')
@@ -840,8 +851,8 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
     }
 
     /* jokers accept void sequences */
-    while (*regexp == '*')
-        regexp ++;
+    if (pBat_AnySequence(regexp))
+        regexp += strspn(regexp, "*?");
 
     if (*match || *regexp)
         return 0;
-- 
2.43.0


From ff52a871957c2bf3c56d18a56760da253c45553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 109/165] fix: DIR showed the size of files above 4 GB modulo 4
 GB

---
 libpbat/dir/pBat_Dir.c | 8 ++++----
 libpbat/libpBat.h      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 893987b..836b4d0 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -863,7 +863,7 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
 }
 
-LIBPBAT int pBat_FormatFileSize(char* lpBuf, int iLength, unsigned int iFileSize)
+LIBPBAT int pBat_FormatFileSize(char* lpBuf, int iLength, unsigned long long iFileSize)
 {
 	int i=0, iLastPart=0;
 
@@ -873,11 +873,11 @@ LIBPBAT int pBat_FormatFileSize(char* lpBuf, int iLength, unsigned int iFileSize
 		iFileSize/=1000;
 		i++;
 	}
-	if (iFileSize>=100) return snprintf(lpBuf, iLength, " %d %s", iFileSize, lpUnit[i%4]);
-	if (iFileSize>=10) return snprintf(lpBuf, iLength, "  %d %s", iFileSize, lpUnit[i%4]);
+	if (iFileSize>=100) return snprintf(lpBuf, iLength, " %d %s", (int)iFileSize, lpUnit[i%4]);
+	if (iFileSize>=10) return snprintf(lpBuf, iLength, "  %d %s", (int)iFileSize, lpUnit[i%4]);
 	else {
 		iLastPart=iLastPart/10;
-		return snprintf(lpBuf, iLength, "%d,%.2d %s", iFileSize, iLastPart , lpUnit[i%4]);
+		return snprintf(lpBuf, iLength, "%d,%.2d %s", (int)iFileSize, iLastPart , lpUnit[i%4]);
 	}
 }
 
diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index d9fb0eb..8ca546e 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -432,7 +432,7 @@ LIBPBAT int         pBat_RegExpCaseMatch(const char* restrict lpRegExp, const ch
 LIBPBAT LPFILELIST  pBat_GetMatchFileList(char* lpPathMatch, int iFlag);
 LIBPBAT int         pBat_GetMatchFileCallback(char* lpPathMatch, int iFlag, void(*pCallBack)(FILELIST*));
 LIBPBAT int         pBat_FreeFileList(LPFILELIST lpflFileList);
-LIBPBAT int         pBat_FormatFileSize (char* lpBuf, int iLenght, unsigned int iSize);
+LIBPBAT int         pBat_FormatFileSize (char* lpBuf, int iLenght, unsigned long long iSize);
 LIBPBAT int         pBat_GetStaticPart(const char* lpPathMatch, char* lpStaticPart, size_t size);
 LIBPBAT size_t      pBat_GetStaticLength(const char* str);
 
-- 
2.43.0


From 72afb9f8e38a8aaf57884d4fbf81d314fcae5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 110/165] fix: DIR never showed the attribute R on Unix

---
 pbat/command/pBat_Dir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Dir.c b/pbat/command/pBat_Dir.c
index d946ab2..0f3aba2 100644
--- a/pbat/command/pBat_Dir.c
+++ b/pbat/command/pBat_Dir.c
@@ -192,7 +192,7 @@ int pBat_CmdDir(char* lpLine)
 
                 }
 
-                if (pBat_GetFileMode(item) & PBAT_FILE_READONLY) lpType[2]='R';
+                if (pBat_CheckFileAttributes(PBAT_CMD_ATTR_READONLY, item)) lpType[2]='R';
 
                 if (pBat_GetFileMode(item) & PBAT_FILE_HIDDEN) lpType[3]='H';
 
-- 
2.43.0


From f35310561fabc3550f6cd75cfd17fbaa9849821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 111/165] fix: expressions for folders matched . and .., so
 that files of other folders were selected, and some twice

---
 libpbat/dir/pBat_Dir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 836b4d0..ef91683 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -398,8 +398,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
     /* loop through the directory entities */
     while ((ent = readdir(dir))) {
 
-        /* skip basic pseudo dirs */
-        if ((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR)
+        /* skip basic pseudo dirs, an expression never leads through them */
+        if (((arg->flags & PBAT_SEARCH_NO_PSEUDO_DIR) || up != NULL)
             && (!strcmp(ent->d_name, ".") || !strcmp(ent->d_name, "..")))
             continue;
 
-- 
2.43.0


From e4519028f5843b1ce230c7006b1dc890d1d66d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 112/165] fix: programs were not found in relative folders of
 PATH once the current directory had changed

---
 pbat/core/pBat_FilePath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 52773e4..672c6d4 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -258,6 +258,7 @@ int pBat_GetFilePath(char* lpFullPath, const char* lpPartial, size_t iBufSize)
 		} else {
 
 			pBat_MakePath(lpEsTmp, 2, pBat_EsToChar(lpEsPart), lpPartial);
+			pBat_EsToFullPath(lpEsTmp);
 
 		}
 
-- 
2.43.0


From f1be5897cbb807ffc47e51eb9dd5b39216e68f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 113/165] fix: programs killed by a signal were taken to have
 succeeded

---
 pbat/core/pBat_Exec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 4d3a8e2..9c6b440 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -399,6 +399,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	}
 
+	/* there is no exit code when the program was killed, and it did not
+	   succeed either */
+	if (WIFSIGNALED(iResult))
+		return 128 + WTERMSIG(iResult);
+
 	return WEXITSTATUS(iResult);
 
 }
-- 
2.43.0


From 504b723987eb6cd47191ba7cc9844528b05e465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 114/165] fix: processes nobody waited for stayed as zombies

---
 pbat/core/pBat_Exec.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 9c6b440..021c25c 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -340,7 +340,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
         close(fds[0]); /* close read end */
 
-		if ( execve(info->file, info->args, env) == -1) {
+        /* nobody would ever wait for the process, so let init do it */
+        if (!(info->flags & PBAT_EXEC_WAIT) && (iPid = fork()) > 0)
+            _exit(0);
+
+		if (iPid == (pid_t)-1 || execve(info->file, info->args, env) == -1) {
 
 			/* if we got here, we can't set ERRORLEVEL
 			   variable anymore.
@@ -382,18 +386,17 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 		} else {
 
-            if (read(fds[0], &c, sizeof(c)) != 0) {
-
-                close(fds[0]);
-
+            if (read(fds[0], &c, sizeof(c)) != 0)
                 *error = 1;
-                return -1;
-            }
 
             close(fds[0]);
 
-			if (info->flags & PBAT_EXEC_WAIT)
-                waitpid(iPid, &iResult, 0);
+            /* the process we do not wait for is not our son, only the one
+               that started it is, and it has already finished */
+            waitpid(iPid, &iResult, 0);
+
+            if (*error)
+                return -1;
 
 		}
 
-- 
2.43.0


From 78fc469e1fc6c991d3866610ccaf4b12c70714a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 115/165] fix: START ran programs elsewhere when the folder of
 /D did not exist

---
 pbat/command/pBat_Start.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index cb0e40f..8ee25cd 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -191,6 +191,15 @@ int pBat_CmdStart(char* line)
             dir = param;
             param = pBat_EsInit_Cached();
 
+            if (!pBat_DirExists(info.dir)) {
+
+                pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR,
+                                        info.dir, 0);
+                status = PBAT_DIRECTORY_ERROR;
+
+                goto error;
+            }
+
         } else if (info.file == NULL) {
 
             /* WOW... this might as well be the title or the real file
-- 
2.43.0


From 6eb568986bf88f48ee5e05c6ab3894bdb51aac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 116/165] fix: START ran internal commands in the current
 directory whatever /D said

---
 pbat/command/pBat_Start.c | 20 +++++++++++++++++++-
 pbat/core/pBat_Run.h      |  1 +
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 8ee25cd..83f3c58 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -36,6 +36,8 @@
 #include "pBat_Start.h"
 #include "../core/pBat_Core.h"
 
+#include "pBat_Cd.h"
+
 #include "../errors/pBat_Errors.h"
 #include "../lang/pBat_ShowHelp.h"
 
@@ -72,6 +74,13 @@ void pBat_StartCommandExec(struct pipe_launch_data_t* data)
 {
     bIgnoreExit = TRUE;
 
+    /* only this thread gets another directory */
+    if (data->dir) {
+
+        pBat_SetCurrentDir(data->dir->str);
+        pBat_EsFree(data->dir);
+
+    }
 
     pBat_RunLine(data->str);
 
@@ -82,7 +91,7 @@ void pBat_StartCommandExec(struct pipe_launch_data_t* data)
 }
 
 
-int pBat_StartCommandBackground(const char* cmdline, int wait)
+int pBat_StartCommandBackground(const char* cmdline, const char* dir, int wait)
 {
     struct pipe_launch_data_t* data;
     THREAD handle;
@@ -95,6 +104,14 @@ int pBat_StartCommandBackground(const char* cmdline, int wait)
 
     data->str = pBat_EsInit();
     pBat_EsCat(data->str, cmdline);
+    data->dir = NULL;
+
+    if (dir) {
+
+        data->dir = pBat_EsInit();
+        pBat_EsCpy(data->dir, dir);
+
+    }
 
     handle = pBat_CloneInstance((void(*)(void*))pBat_StartCommandExec, data);
 
@@ -369,6 +386,7 @@ int pBat_CmdStart(char* line)
 
     if (command)
         status = pBat_StartCommandBackground(info.cmdline,
+                                             dir ? info.dir : NULL,
                                              info.flags & PBAT_EXEC_WAIT);
     else
         status = pBat_ExecuteFile(&info);
diff --git a/pbat/core/pBat_Run.h b/pbat/core/pBat_Run.h
index 7d0dc8c..d201dce 100644
--- a/pbat/core/pBat_Run.h
+++ b/pbat/core/pBat_Run.h
@@ -39,6 +39,7 @@ struct pipe_launch_data_t {
     int fdin;
     int fdout;
     ESTR* str;
+    ESTR* dir;
     PARSED_STREAM* stream;
 };
 
-- 
2.43.0


From a17e67c25e0956a7268eb0288844dc0d6876fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 117/165] fix: START took /MIN and /MAX for the name of the
 program

---
 pbat/command/pBat_Start.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 83f3c58..096cc4e 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -173,6 +173,8 @@ int pBat_CmdStart(char* line)
                     || !stricmp(param->str, "/LOW")             /* |        */
                     || !stricmp(param->str, "/REALTIME")        /* | Ignore */
                     || !stricmp(param->str, "/ABOVENORMAL")     /* | all    */
+                    || !stricmp(param->str, "/MIN")
+                    || !stricmp(param->str, "/MAX")
                     || !stricmp(param->str, "/BELOWNORMAL")) {  /* | that   */
                                                                 /* | shitty */
             /* do nothing */                                    /* | opts   */
-- 
2.43.0


From cc4eef39b4a22c3d0dc564aa40a44f588daad838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 118/165] fix: START could not run scripts given by absolute
 names or together with /D

---
 pbat/command/pBat_Start.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 096cc4e..363bc69 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -304,8 +304,12 @@ int pBat_CmdStart(char* line)
                     if (bCmdlyCorrect)
                         pBat_EsCat(param, "c");
 
-                    pBat_EsCat(param, " ");
-                    pBat_EsCat(param, line);
+                    /* the name may begin with '/' and was looked for here,
+                       not in the directory of /D */
+                    pBat_EsCat(param, " // \"");
+                    pBat_EsCat(param, buf);
+                    pBat_EsCat(param, "\"");
+                    pBat_EsCat(param, next);
 
                 } else {
 
-- 
2.43.0


From c7eb60f979d7394ef08c5f0ec937d5086a56619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 119/165] fix: START failed when pbat is in a folder with
 blanks in its name

---
 pbat/command/pBat_Start.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_Start.c b/pbat/command/pBat_Start.c
index 363bc69..3f42be1 100644
--- a/pbat/command/pBat_Start.c
+++ b/pbat/command/pBat_Start.c
@@ -252,8 +252,9 @@ int pBat_CmdStart(char* line)
                 } else {
 
                     info.file = lppBatExec;
-                    pBat_EsCpy(param, lppBatExec);
-                    pBat_EsCat(param, " /a:q");
+                    pBat_EsCpy(param, "\"");
+                    pBat_EsCat(param, lppBatExec);
+                    pBat_EsCat(param, "\" /a:q");
 
                     if (!bEchoOn)
                         pBat_EsCat(param, "e");
@@ -295,8 +296,9 @@ int pBat_CmdStart(char* line)
                     || !stricmp(ext, ".cmd")) {
 
                     info.file = lppBatExec;
-                    pBat_EsCpy(param, lppBatExec);
-                    pBat_EsCat(param, " /a:q");
+                    pBat_EsCpy(param, "\"");
+                    pBat_EsCat(param, lppBatExec);
+                    pBat_EsCat(param, "\" /a:q");
 
                     if (!bEchoOn)
                         pBat_EsCat(param, "e");
@@ -338,8 +340,9 @@ int pBat_CmdStart(char* line)
         }
 
         info.file = lppBatExec;
-        pBat_EsCpy(param, lppBatExec);
-        pBat_EsCat(param, " /a:q");
+        pBat_EsCpy(param, "\"");
+        pBat_EsCat(param, lppBatExec);
+        pBat_EsCat(param, "\" /a:q");
 
         if (!bEchoOn)
             pBat_EsCat(param, "e");
-- 
2.43.0


From 65ffa5cb670677077113214854f4582f1122ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 120/165] fix: the code of EXIT /B was lost outside subroutines

---
 pbat/command/pBat_Exit.c | 1 +
 pbat/command/pBat_Goto.c | 1 +
 pbat/core/pBat_Globals.c | 2 ++
 pbat/core/pBat_Globals.h | 1 +
 pbat/pBat.c              | 9 +++++++--
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index a80ff71..1db21b2 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -87,6 +87,7 @@ int pBat_CmdExit(char* lpLine)
 
             pBat_EsFree_Cached(param);
             bAbortCommand = PBAT_ABORT_EXECUTION_LEVEL;
+            iExitCode = ret;
             return ret;
 
 		} else {
diff --git a/pbat/command/pBat_Goto.c b/pbat/command/pBat_Goto.c
index 1b97add..edfca8e 100644
--- a/pbat/command/pBat_Goto.c
+++ b/pbat/command/pBat_Goto.c
@@ -105,6 +105,7 @@ int pBat_CmdGoto(char* lpLine)
     if (!stricmp(lpLabelName, ":EOF")) {
 
         bAbortCommand = PBAT_ABORT_EXECUTION_LEVEL;
+        iExitCode = 0;
         goto next;
 
     }
diff --git a/pbat/core/pBat_Globals.c b/pbat/core/pBat_Globals.c
index 4e3825a..103fb96 100644
--- a/pbat/core/pBat_Globals.c
+++ b/pbat/core/pBat_Globals.c
@@ -63,6 +63,8 @@ __thread int iErrorLevel=0;
 __thread int bIsScript;
 __thread int bCmdlyCorrect=FALSE;
 
+__thread int iExitCode=0; /* code given to the EXIT /B that aborted the
+                             execution level */
 __thread int bAbortCommand=FALSE;
 __thread LPCOMMANDLIST lpclCommands;
 __thread LOCAL_VAR_BLOCK* lpvLocalVars;
diff --git a/pbat/core/pBat_Globals.h b/pbat/core/pBat_Globals.h
index d60b849..f2a1eb8 100644
--- a/pbat/core/pBat_Globals.h
+++ b/pbat/core/pBat_Globals.h
@@ -51,6 +51,7 @@ extern char lppBatExec[]; /* A path to the pBat executable */
 
 /* Current state of the interpreter associated to this
    thread */
+extern __thread int iExitCode;
 extern __thread int bAbortCommand; /* abort the command (0: no , 1: jump to next l,
                                     -1 : move to upper execution level) */
 
diff --git a/pbat/pBat.c b/pbat/pBat.c
index eaed649..060e732 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -74,7 +74,8 @@ int main(int argc, char *argv[])
 
 
     int bQuiet=FALSE,
-        bExitAfterCmd=TRUE;
+        bExitAfterCmd=TRUE,
+        status=0;
 
     ESTR* lpesCmd;
 
@@ -197,10 +198,14 @@ int main(int argc, char *argv[])
 
 skip:
 
+    /* outside a subroutine, EXIT /B is the same as EXIT */
+    if (bAbortCommand == PBAT_ABORT_EXECUTION_LEVEL)
+        status = iExitCode;
+
     pBat_Exit();
 
     pBat_LibClose();
 
-    return 0;
+    return status;
 
 }
-- 
2.43.0


From e160fa6da9db47ce4fbaec8906a82eff3793a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 121/165] fix: the last line of a script was read after it had
 been freed

---
 pbat/core/pBat_ReadScript.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index e59d0fa..b9172e7 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -234,8 +234,13 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
 
         /* the read line should *definitely* end with a '\n' (in
            in fact it always do, except when reaching end of file) */
-        if (strchr(pch, '\n') == NULL)
+        if (strchr(pch, '\n') == NULL) {
+
+            /* the string may have moved */
             pBat_EsCat(line, "\n");
+            pch = pBat_SkipBlanks(line->str);
+
+        }
 
         /* This is a command */
         pBat_EsCat(cmd, pch);
-- 
2.43.0


From 352654d543bdbc4ed204fd0dabf22f0063f069b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 122/165] fix: programs were started with SIGPIPE and SIGFPE
 ignored

---
 pbat/core/pBat_Exec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 021c25c..b97aa1e 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -24,6 +24,7 @@
 #include <errno.h>
 
 #ifndef WIN32
+#include <signal.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -340,6 +341,10 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
         close(fds[0]); /* close read end */
 
+        /* what we ignore is no matter of the program */
+        signal(SIGPIPE, SIG_DFL);
+        signal(SIGFPE, SIG_DFL);
+
         /* nobody would ever wait for the process, so let init do it */
         if (!(info->flags & PBAT_EXEC_WAIT) && (iPid = fork()) > 0)
             _exit(0);
-- 
2.43.0


From 24476fdd66c80467619c0dbd7441135ea46e0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 123/165] fix: %~a never showed the read-only attribute, that
 DIR shows

---
 pbat/core/pBat_Var.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 8a9ed37..bba9255 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -590,7 +590,13 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 
 				sprintf(lpBuffer, "       %c", (cFlag[i+1]!=0 ? '\t': '\0'));
 				if (PBAT_IS_DIR(stFileInfo.st_mode)) lpBuffer[0]='D';
+#ifdef WIN32
 				if (stFileInfo.st_mode & PBAT_FILE_READONLY) lpBuffer[2]='R';
+#else
+				/* there is no such flag, DIR takes it this way too */
+				if ((stFileInfo.st_mode & (PBAT_FILE_READ | PBAT_FILE_WRITE))
+                    == PBAT_FILE_READ) lpBuffer[2]='R';
+#endif
 				if (stFileInfo.st_mode & PBAT_FILE_HIDDEN) lpBuffer[3]='H';
 				if (stFileInfo.st_mode & PBAT_FILE_SYSTEM) lpBuffer[4]='S';
 				if (stFileInfo.st_mode & PBAT_FILE_ARCHIVE) lpBuffer[5]='A';
-- 
2.43.0


From 9149120f87176e3aeb98b131d06dc3be039d74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 124/165] fix: with CMDLYCORRECT labels with blanks before them
 were not found

---
 pbat/core/pBat_Jump.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 417b5e6..29ba34d 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -107,6 +107,7 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 {
 	size_t iSize=strlen(lpLabelName);
 	char* lpName=lpFileName;
+	char* lpLabel;
 	FILE* pFile;
 	ESTR* lpLine=pBat_EsInit_Cached();
 
@@ -138,9 +139,11 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 	while (!pBat_EsGet(lpLine, pFile)) {
 
         /* Check the label name matches is followed by a delimiter or '\0' */
-		if (!strnicmp(pBat_SkipBlanks(lpLine->str), lpLabelName, iSize)
-            && (pBat_IsDelim(*(lpLine->str + iSize))
-                || *(lpLine->str + iSize) == '\0')) {
+		lpLabel = pBat_SkipBlanks(lpLine->str);
+
+		if (!strnicmp(lpLabel, lpLabelName, iSize)
+            && (pBat_IsDelim(*(lpLabel + iSize))
+                || *(lpLabel + iSize) == '\0')) {
 
 			if (lpFileName) {
 
-- 
2.43.0


From a7e69c7b59fd47306a6b95081959720bcbbe36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 125/165] fix: SETLOCAL CMDLYCORRECT and the ENDLOCAL after it
 ran the script from an earlier line again

---
 pbat/core/pBat_Jump.c       |  2 ++
 pbat/core/pBat_Read.c       | 15 +++++++++++++++
 pbat/core/pBat_Read.h       |  1 +
 pbat/core/pBat_ReadScript.c |  1 +
 pbat/core/pBat_ReadScript.h |  1 +
 5 files changed, 20 insertions(+)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29ba34d..c4a4a10 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -100,6 +100,7 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     /* Check if lbl follow a line or is the first line */
     ifIn.batch.curr = lbl->following ? lbl->following->next : ifIn.batch.cmds;
+    ifIn.bCmdly = FALSE;
 	return 0;
 }
 
@@ -158,6 +159,7 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 
 			ifIn.iPos=ftell(pFile);
 			ifIn.bEof=feof(pFile);
+			ifIn.bCmdly=TRUE;
 
 
 			DEBUG("Freeing data");
diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 149128c..ac42e00 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -103,6 +103,18 @@ int pBat_GetLine(ESTR* lpesLine, INPUT_FILE* pIn)
 
     /* We have an appropriate batch script structure */
 
+    if (pIn->bCmdly) {
+
+        /* go on from where pBat_GetLine_Cmdly() stopped */
+        pIn->batch.curr = pIn->batch.cmds;
+
+        while (pIn->batch.curr && pIn->batch.curr->end <= pIn->iPos)
+            pIn->batch.curr = pIn->batch.curr->next;
+
+        pIn->bCmdly = FALSE;
+
+    }
+
     if (pIn->batch.curr == NULL) {
 
         /* Looks like we have reached eof */
@@ -123,6 +135,8 @@ int pBat_GetLine(ESTR* lpesLine, INPUT_FILE* pIn)
 
         pBat_EsCat(lpesLine, tmp->str);
 
+        /* pBat_GetLine_Cmdly() may have to go on from there */
+        pIn->iPos = cmdlines->end;
         cmdlines = cmdlines->next;
 
     } while ((!(ok = pBat_CheckBlocks(lpesLine)) || ok == -1) && cmdlines);
@@ -182,6 +196,7 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
         setvbuf(pFile, NULL, _IONBF, 0);
 #endif
         fseek(pFile, pIn->iPos, SEEK_SET);
+        pIn->bCmdly = TRUE;
 	}
 
 	*(pBat_EsToChar(lpesLine))='\0';
diff --git a/pbat/core/pBat_Read.h b/pbat/core/pBat_Read.h
index 49c731b..88fe6d3 100644
--- a/pbat/core/pBat_Read.h
+++ b/pbat/core/pBat_Read.h
@@ -29,6 +29,7 @@ typedef struct INPUT_FILE {
 	char  lpFileName[FILENAME_MAX];
 	int   iPos;
 	int   bEof;
+	int   bCmdly; /* TRUE if iPos, rather than batch.curr, tells what follows */
 	struct batch_script_t batch;
 } INPUT_FILE;
 
diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b9172e7..a7c70e2 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -256,6 +256,7 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
                                         __FILE__ "/pBat_LoadBatchScript", -1);
 
         newcmd->line = xstrdup(cmd->str);
+        newcmd->end = ftell(file);
         newcmd->next = NULL;
 
         if (script->curr) /* add the new line to the linked list */
diff --git a/pbat/core/pBat_ReadScript.h b/pbat/core/pBat_ReadScript.h
index d090f98..8fb65c3 100644
--- a/pbat/core/pBat_ReadScript.h
+++ b/pbat/core/pBat_ReadScript.h
@@ -46,6 +46,7 @@
 
 struct cmdlines_t {
     char* line; /* the line to be parsed */
+    long end; /* position of the following line in the file */
     struct cmdlines_t* next; /* pointer to next line */
 };
 
-- 
2.43.0


From 66c647cbe249e60e48ef2aa17af6974004eec0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 126/165] fix: with CMDLYCORRECT the #! line of a script was
 taken for a command

---
 pbat/core/pBat_Read.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index ac42e00..991d7fa 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -164,7 +164,7 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 	FILE* pFile;
 	ESTR* lpesTmp=pBat_EsInit_Cached();
 
-	char bCorrectBlocks=FALSE;
+	char bCorrectBlocks=FALSE, bFirst = (pIn->iPos == 0);
 	char* lpCh;
 	int   res;
 
@@ -203,6 +203,17 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 	while (!(res=fn_getline(lpesTmp, pFile))) {
 
+        if (*(pIn->lpFileName) != '\0' && bFirst
+            && !strncmp(pBat_SkipBlanks(lpesTmp->str), "#!", 2)) {
+
+            /* This is a shebang, skip it */
+            bFirst = FALSE;
+            continue;
+
+        }
+
+        bFirst = FALSE;
+
         pBat_ReplaceVars(lpesTmp);
 
 		lpCh=pBat_SkipAllBlanks(pBat_EsToChar(lpesTmp));
-- 
2.43.0


From 8b8c25d64a14db601a71ea91e9cd4e43c34fe37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 127/165] fix: DUMP mixed up its 64 bit and floating types and
 its hexadecimal dump was not the one of the elements

---
 dump/dump.c | 110 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 83 insertions(+), 27 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index efcb24b..c2b7561 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -51,10 +51,10 @@
 #define DUMP_USHORT 3
 #define DUMP_INT 4
 #define DUMP_UINT 5
-#define DUMP_LONGLONG 5
-#define DUMP_ULONGLONG 6
-#define DUMP_FLOAT 7
-#define DUMP_DOUBLE 8
+#define DUMP_LONGLONG 6
+#define DUMP_ULONGLONG 7
+#define DUMP_FLOAT 8
+#define DUMP_DOUBLE 9
 
 #define DUMP_ADDRESS 0x1
 #define DUMP_TITLE 0x2
@@ -67,28 +67,6 @@
 
 #define DEFAULT_WIDTH 80
 
-#define GET_CAST_9(type, p, fn, ...) (type == DUMP_DOUBLE) ? (fn ( __VA_ARGS__ , *((double*)p ))) : \
-                                            (0)
-#define GET_CAST_8(type, p, fn, ...) (type == DUMP_FLOAT) ? (fn ( __VA_ARGS__ , *((float*)p ))) : \
-                                            (GET_CAST_9(type, p, fn, __VA_ARGS__))
-#define GET_CAST_7(type, p, fn, ...) (type == DUMP_ULONGLONG) ? (fn ( __VA_ARGS__ , *((unsigned long long*)p ))) : \
-                                            (GET_CAST_8(type, p, fn, __VA_ARGS__))
-#define GET_CAST_6(type, p, fn, ...) (type == DUMP_LONGLONG) ? (fn ( __VA_ARGS__ , *((long long*)p ))) : \
-                                            (GET_CAST_7(type, p, fn, __VA_ARGS__))
-#define GET_CAST_5(type, p, fn, ...) (type == DUMP_UINT) ? (fn ( __VA_ARGS__ , *((unsigned int*)p ))) : \
-                                            (GET_CAST_6(type, p, fn, __VA_ARGS__))
-#define GET_CAST_4(type, p, fn, ...) (type == DUMP_INT) ? (fn ( __VA_ARGS__ , *((int*)p ))) : \
-                                            (GET_CAST_5(type, p, fn, __VA_ARGS__))
-#define GET_CAST_3(type, p, fn, ...) (type == DUMP_USHORT) ? (fn ( __VA_ARGS__ , *((unsigned short*)p ))) : \
-                                            (GET_CAST_4(type, p, fn, __VA_ARGS__))
-#define GET_CAST_2(type, p, fn, ...) (type == DUMP_SHORT) ? (fn ( __VA_ARGS__ , *((short*)p ))) : \
-                                            (GET_CAST_3(type, p, fn, __VA_ARGS__))
-#define GET_CAST_1(type, p, fn, ...) (type == DUMP_UCHAR) ? (fn ( __VA_ARGS__ , *((unsigned char*)p))) : \
-                                            (GET_CAST_2(type, p, fn, __VA_ARGS__))
-#define GET_CAST_0(type, p, fn, ...) (type == DUMP_CHAR) ? (fn ( __VA_ARGS__ , *((char*)p))) : \
-                                            (GET_CAST_1(type, p, fn, __VA_ARGS__))
-#define GET_CAST(type, p, fn, ...) GET_CAST_0(type, p, fn, __VA_ARGS__)
-
 struct dump_t {
     char flags;
     size_t size;
@@ -212,6 +190,84 @@ int get_type(const char* type)
     return -1;
 }
 
+/* print a single element stored at p, that might not be aligned */
+void print_element(struct dump_t* context, const char* p)
+{
+    union {
+        char c;
+        unsigned char uc;
+        short s;
+        unsigned short us;
+        int i;
+        unsigned int ui;
+        long long ll;
+        unsigned long long ull;
+        float f;
+        double d;
+    } value;
+    int type = context->type;
+
+    memcpy(&value, p, context->size);
+
+    /* the hexadecimal dump shows the bits of the element, whatever it is */
+    if (context->flags & DUMP_HEX) {
+
+        if (context->size == sizeof(unsigned char))
+            type = DUMP_UCHAR;
+        else if (context->size == sizeof(unsigned short))
+            type = DUMP_USHORT;
+        else if (context->size == sizeof(unsigned int))
+            type = DUMP_UINT;
+        else
+            type = DUMP_ULONGLONG;
+
+    }
+
+    switch (type) {
+
+    case DUMP_CHAR:
+        printf(context->format, value.c);
+        break;
+
+    case DUMP_UCHAR:
+        printf(context->format, value.uc);
+        break;
+
+    case DUMP_SHORT:
+        printf(context->format, value.s);
+        break;
+
+    case DUMP_USHORT:
+        printf(context->format, value.us);
+        break;
+
+    case DUMP_INT:
+        printf(context->format, value.i);
+        break;
+
+    case DUMP_UINT:
+        printf(context->format, value.ui);
+        break;
+
+    case DUMP_LONGLONG:
+        printf(context->format, value.ll);
+        break;
+
+    case DUMP_ULONGLONG:
+        printf(context->format, value.ull);
+        break;
+
+    case DUMP_FLOAT:
+        printf(context->format, value.f);
+        break;
+
+    case DUMP_DOUBLE:
+        printf(context->format, value.d);
+        break;
+
+    }
+}
+
 int dump_fd(int fd, struct dump_t* context)
 {
     char *chars, *data, *p, *addr = NULL, *spaces;
@@ -250,7 +306,7 @@ int dump_fd(int fd, struct dump_t* context)
         /* loop over elements of the buffer */
         while (p < data + count) {
 
-            GET_CAST(context->type, p, printf, context->format);
+            print_element(context, p);
             printf("%s", spaces);
             p += context->size;
 
-- 
2.43.0


From be15553f15ab58036a3e8b7f4dc7ff7665c0037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 128/165] fix: DUMP /B read beyond the end of its arguments

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index c2b7561..e874063 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -418,7 +418,7 @@ int main(int argc, char** argv)
 
             flags &= ~ DUMP_DEFAULT;
 
-            while (*argv) {
+            while (**argv) {
                 switch (**argv) {
 
                 case 'a':
-- 
2.43.0


From 19b1f90ab469e32146a14eb626f801a68dc8e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 129/165] fix: DUMP padded what it read from pipes and ran for
 ever on read errors

---
 dump/dump.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index e874063..de6582d 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -268,6 +268,28 @@ void print_element(struct dump_t* context, const char* p)
     }
 }
 
+/* fill the buffer as much as possible, as read() may return less bytes than
+   asked before the end of the file. */
+int read_buffer(int fd, char* data, size_t size)
+{
+    size_t count = 0;
+    int ret;
+
+    while (count < size) {
+
+        if ((ret = read(fd, data + count, size - count)) < 0)
+            return -1;
+
+        if (ret == 0)
+            break;
+
+        count += ret;
+
+    }
+
+    return count;
+}
+
 int dump_fd(int fd, struct dump_t* context)
 {
     char *chars, *data, *p, *addr = NULL, *spaces;
@@ -284,7 +306,7 @@ int dump_fd(int fd, struct dump_t* context)
 
     spaces = (context->flags & DUMP_QUIET) ? "" : " ";
 
-    while ((count = read(fd, data, size))) {
+    while ((count = read_buffer(fd, data, size)) > 0) {
 
         if (count < size) {
              /* we reached eof and count is not a multiple of the
@@ -354,6 +376,13 @@ int dump_fd(int fd, struct dump_t* context)
     free(chars);
     free(data);
 
+    if (count < 0) {
+
+        fprintf(stderr, "dump: unable to read.\n");
+        return -1;
+
+    }
+
     return 0;
 
 }
-- 
2.43.0


From 53c95b5293f68b57173c567b308b22524f802563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 130/165] fix: DUMP showed characters that are not in the file

---
 dump/dump.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index de6582d..01712b6 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -293,7 +293,7 @@ int read_buffer(int fd, char* data, size_t size)
 int dump_fd(int fd, struct dump_t* context)
 {
     char *chars, *data, *p, *addr = NULL, *spaces;
-    int count, i;
+    int count, bytes, i;
     size_t size = context->n * context->size;
 
     if (!(chars = malloc(size + 1))
@@ -308,6 +308,8 @@ int dump_fd(int fd, struct dump_t* context)
 
     while ((count = read_buffer(fd, data, size)) > 0) {
 
+        bytes = count;
+
         if (count < size) {
              /* we reached eof and count is not a multiple of the
                 size we set just pad with 0 until the next
@@ -350,12 +352,12 @@ int dump_fd(int fd, struct dump_t* context)
 
         if (context->flags & DUMP_CHARS) {
 
-            memcpy(chars, data, count);
-            *(chars + count) = '\0';
+            memcpy(chars, data, bytes);
+            *(chars + bytes) = '\0';
 
             p = chars;
 
-            while (p < chars + size) {
+            while (p < chars + bytes) {
 
                 if (*p < 0x20)
                     *p = '.';
-- 
2.43.0


From ab06e562958e3a3ff483b2acc3c5946d239cb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 131/165] fix: the first address of DUMP was (nil), and the
 columns were not aligned

---
 dump/dump.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index 01712b6..68e36f5 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -292,7 +292,8 @@ int read_buffer(int fd, char* data, size_t size)
 
 int dump_fd(int fd, struct dump_t* context)
 {
-    char *chars, *data, *p, *addr = NULL, *spaces;
+    char *chars, *data, *p, *spaces;
+    unsigned long long addr = 0;
     int count, bytes, i;
     size_t size = context->n * context->size;
 
@@ -325,7 +326,7 @@ int dump_fd(int fd, struct dump_t* context)
         p = data;
 
         if (context->flags & DUMP_ADDRESS)
-            printf("%p%s", addr, spaces);
+            printf("%0*llx%s", (int)(2*sizeof(void*)), addr, spaces);
 
         /* loop over elements of the buffer */
         while (p < data + count) {
-- 
2.43.0


From 5270cad7f024c3dffa5fce460d498c4b3a9275ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 132/165] fix: negative floating numbers did not fit in the
 columns of DUMP

---
 dump/dump_h_gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dump/dump_h_gen.c b/dump/dump_h_gen.c
index 28aa902..5e23661 100644
--- a/dump/dump_h_gen.c
+++ b/dump/dump_h_gen.c
@@ -32,8 +32,8 @@ int main(void)
     unsigned int uimax = UINT_MAX, uimin = 0;
     long long llmax = LLONG_MAX, llmin = LLONG_MIN;
     unsigned long long ullmax = ULLONG_MAX, ullmin = 0;
-    float fmax = FLT_MAX, fmin = FLT_MIN;
-    double dmax = DBL_MAX, dmin = DBL_MIN;
+    float fmax = FLT_MAX, fmin = -FLT_MAX;
+    double dmax = DBL_MAX, dmin = -DBL_MAX;
 
     printf("#define DUMP_CHAR_MAX \"%d\"\n", cmax);
     printf("#define DUMP_CHAR_MIN \"%d\"\n", cmin);
-- 
2.43.0


From f507611952939db1a1dccc650c4be7942936941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 133/165] fix: changing to the root by .. gave an empty current
 directory, and what followed .. of the root was lost

---
 pbat/command/pBat_Cd.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 754cd2b..275384a 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -120,12 +120,10 @@ reloop:
                 if (previous < orig) {
 
                     /* this is not meant to happen unless if .. follows directly the root
-                       remove it then */
-#ifdef WIN32
-                    *path = '\0';
-#else
-                    *(path + 1) = '\0';
-#endif // WIN32
+                       remove it then, as the parent of the root is the root */
+                    memmove(path, path + 3, size - ((path + 3) - orig));
+                    size -= 3;
+                    continue;
 
                 } else {
 
@@ -150,7 +148,11 @@ reloop:
             path ++;
     }
 
-    /* Wait ... */
+#ifndef WIN32
+    /* everything has been squeezed : this is the root */
+    if (*orig == '\0')
+        strcpy(orig, "/");
+#endif // WIN32
 
     return 0;
 }
-- 
2.43.0


From f811b0da18e7e2b7fa65eeb578678725694c19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 134/165] fix: CD went to directories that do not exist, after
 symbolic links or if the path was too long

---
 pbat/command/pBat_Cd.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 275384a..3bc9860 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -157,12 +157,31 @@ reloop:
     return 0;
 }
 
+/* Canonicalize lpCurrentDir, that might then be another directory, as .. goes
+   back through symbolic links. If this one does not exist, get previous back */
+static int pBat_CanonicalizeCurrentDir(const char* previous)
+{
+    pBat_Canonicalize(lpCurrentDir);
+
+    if (pBat_DirExists(lpCurrentDir))
+        return 0;
+
+    strcpy(lpCurrentDir, previous);
+
+    errno = ENOENT;
+    return -1;
+}
+
 int pBat_SetCurrentDir(char* lpLine)
 {
+    char previous[FILENAME_MAX];
     char *p/*, *p2 = NULL */;
     size_t remain;
 
-    if (PBAT_TEST_ABSOLUTE_PATH(lpLine)
+    strcpy(previous, lpCurrentDir);
+
+    if (strlen(lpLine) < FILENAME_MAX
+        && PBAT_TEST_ABSOLUTE_PATH(lpLine)
         && pBat_DirExists(lpLine)) {
 
  #ifdef WIN32
@@ -179,13 +198,13 @@ int pBat_SetCurrentDir(char* lpLine)
             strncpy(lpCurrentDir + 2, lpLine, FILENAME_MAX-2);
             lpCurrentDir[FILENAME_MAX-1] = '\0';
 
-            return pBat_Canonicalize(lpCurrentDir);
+            return pBat_CanonicalizeCurrentDir(previous);
         }
  #endif
 
         strncpy(lpCurrentDir, lpLine, FILENAME_MAX);
         lpCurrentDir[FILENAME_MAX - 1] = '\0';
-        return pBat_Canonicalize(lpCurrentDir);
+        return pBat_CanonicalizeCurrentDir(previous);
 
     }
 
@@ -202,13 +221,13 @@ int pBat_SetCurrentDir(char* lpLine)
 
     remain = FILENAME_MAX - (p + 1 - lpCurrentDir);
 
-    if (remain > 0) {
+    if (p + 1 < lpCurrentDir + FILENAME_MAX && strlen(lpLine) < remain) {
 
         strncpy(p + 1, lpLine, remain);
         lpCurrentDir[FILENAME_MAX - 1] = '\0';
 
         if (pBat_DirExists(lpCurrentDir))
-            return pBat_Canonicalize(lpCurrentDir);
+            return pBat_CanonicalizeCurrentDir(previous);
 
     }
 
-- 
2.43.0


From 381d9d64fffc4c3628df547ee557b43c534cb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 135/165] fix: CD did not end the line of the directory it
 shows

---
 pbat/command/pBat_Cd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 3bc9860..a163f49 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -334,6 +334,7 @@ def:
 	} else {
 
 		fputs(lpCurrentDir, fOutput);
+		fputs(PBAT_NL, fOutput);
 
 	}
 
-- 
2.43.0


From 21e8b99f39b597363088340929f4836cdd56a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 136/165] fix: a failed copy of the directory stack freed wild
 pointers

---
 pbat/core/pBat_DirStack.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pbat/core/pBat_DirStack.c b/pbat/core/pBat_DirStack.c
index 627f824..13ae2f5 100644
--- a/pbat/core/pBat_DirStack.c
+++ b/pbat/core/pBat_DirStack.c
@@ -98,12 +98,10 @@ bool pBat_DirStackCopy(struct dirstack_t *dest)
 
   PBAT_DBG("pBat_DirStackCopy(): Copying DirStack to %p", dest);
 
-  if (dest == NULL) {
-    memset(dest, 0, sizeof(struct dirstack_t)); /* NOTE */
+  if (dest == NULL)
     return true;
-  }
 
-  dest->paths = malloc(dsDirStack.count * sizeof(char *));
+  dest->paths = malloc((dsDirStack.count + 1) * sizeof(char *));
   dest->count = dsDirStack.count;
 
   if (dest->paths == NULL) {
@@ -122,7 +120,7 @@ bool pBat_DirStackCopy(struct dirstack_t *dest)
 
       /* We need to free all allocated paths, from 0 to i-1. */
       for (size_t j = 0; j < i; j++)
-        free(dest->paths[i]);
+        free(dest->paths[j]);
 
       free(dest->paths);
 
-- 
2.43.0


From 5941505dbc09c25eeb71097cea4a4bdf1c6a4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 137/165] fix: DEF /f replaced other commands which names begin
 like the redefined one

---
 libpbat/cmdlist/pBat_CmdList.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..333acf9 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -280,9 +280,9 @@ LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpcl
 
     while (lpclCommandList) {
 
-        iRet=strnicmp(lpCommandLine,
-                      lpclCommandList->ptrCommandName,
-                      lpclCommandList->iLenght);
+        /* lpCommandLine is a command name, so do not take a command that it
+           only begins with */
+        iRet=stricmp(lpCommandLine, lpclCommandList->ptrCommandName);
 
         if (iRet>0) {
 
-- 
2.43.0


From c11c242b200b899c4b38a5ae6af65719e3ee7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 138/165] fix: the arguments of DEF procedures were searched
 for $1 to $9 again

---
 pbat/core/pBat_ExpandDef.c | 41 ++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pbat/core/pBat_ExpandDef.c b/pbat/core/pBat_ExpandDef.c
index 77a46b8..a186bc5 100644
--- a/pbat/core/pBat_ExpandDef.c
+++ b/pbat/core/pBat_ExpandDef.c
@@ -27,26 +27,45 @@
 void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
 {
     int i;
-    char var[]="$1";
+    char *args, *next;
     ESTR *restrict ret=pBat_EsInit_Cached(),
         *restrict param=pBat_EsInit_Cached();
 
-    pBat_EsCpy(ret, lpExp);
+    pBat_EsCpy(ret, "");
 
-    lpCh = pBat_SkipBlanks(lpCh);
-    pBat_EsReplace(ret, "$*", lpCh);
+    args = pBat_SkipBlanks(lpCh);
 
-    for (i = 1; i <= 10; i++) {
+    /* do not look for symbols in what is substituted, as the arguments
+       might hold some */
+    while ((next = strchr(lpExp, '$'))) {
 
-        var[1] = '0' + i;
+        pBat_EsCatN(ret, lpExp, next - lpExp);
+        lpExp = next + 2;
+
+        if (next[1] == '*') {
+
+            pBat_EsCat(ret, args);
+
+        } else if (next[1] >= '1' && next[1] <= '9') {
+
+            for (i = next[1] - '0', lpCh = args; i && lpCh; i --)
+                lpCh = pBat_GetNextParameterEs(lpCh, param);
+
+            if (lpCh)
+                pBat_EsCat(ret, param->str);
+
+        } else {
+
+            /* this is no symbol */
+            pBat_EsCat(ret, "$");
+            lpExp = next + 1;
+
+        }
 
-        if (lpCh
-            && (lpCh = pBat_GetNextParameterEs(lpCh, param)))
-            pBat_EsReplace(ret, var, param->str);
-        else
-            pBat_EsReplace(ret, var, "");
     }
 
+    pBat_EsCat(ret, lpExp);
+
     pBat_EsCpyE(lpRet, ret);
 
     pBat_EsFree_Cached(ret);
-- 
2.43.0


From d7dc461d1e9cde0668055824ffa72cbed192d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 139/165] fix: local variables of DEF procedures could not be
 removed, and those inherited once were inherited by all contexts

---
 pbat/command/pBat_Set.c |  2 +-
 pbat/core/pBat_Env.c    | 52 ++++++++++++++++++++++++++++-------------
 pbat/core/pBat_Env.h    |  1 +
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 51c23cb..e7aa522 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,7 +203,7 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if ((lpeEnv->envbuf[i]->name != NULL)
+			if ((lpeEnv->envbuf[i]->content != NULL)
                 && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine))) {
 
 				found = TRUE;
diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 32d41e9..68e3122 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -121,14 +121,13 @@ error:
     }
 
 
-    if (name == NULL
-        || content == NULL) {
+    pRet->content = NULL;
+    pRet->name = NULL;
 
-        pRet->content = NULL;
-        pRet->name = NULL;
-
-    } else if (!(pRet->name = strdup(name))
-            || !(pRet->content = strdup(content)))
+    /* a name without content is a local variable that has been removed in
+       the current context */
+    if ((name != NULL && !(pRet->name = strdup(name)))
+        || (content != NULL && !(pRet->content = strdup(content))))
         goto error;
 
     pRet->previous = NULL;
@@ -266,7 +265,7 @@ void pBat_SetEnvEx(ENVBUF* pEnv, char* name, const char* content, int inherit)
 
     if (content == NULL || *content == '\0') {
 
-        pBat_UnSetEnv(pEnv, name);
+        pBat_UnSetEnvEx(pEnv, name, inherit);
     	return;
 
     }
@@ -318,7 +317,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
@@ -359,6 +358,11 @@ error:
 */
 
 void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
+{
+    pBat_UnSetEnvEx(pEnv, name, 0);
+}
+
+void  pBat_UnSetEnvEx(ENVBUF* pEnv, char* name, int inherit)
 {
     ENVVAR **pRes,
             key={name, NULL},
@@ -366,9 +370,15 @@ void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
 
     pRes = bsearch(&pKey, pEnv->envbuf, pEnv->index, sizeof(ENVVAR*), pBat_EnvCompName);
 
-    /* Do not let local variables used by previous contexts be freed */
-    if (pRes &&
-        ((*pRes)->previous) == NULL) {
+    if (pRes && (*pRes)->previous) {
+
+        /* Do not let local variables used by previous contexts be freed */
+        free((*pRes)->content);
+
+        (*pRes)->content = NULL;
+        (*pRes)->inherit = inherit;
+
+    } else if (pRes) {
 
         free((*pRes)->name);
         free((*pRes)->content);
@@ -416,7 +426,7 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         #if !defined(WIN32)
@@ -462,7 +472,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         pEnv->envbuf[i]->size = strlen(pEnv->envbuf[i]->content)
@@ -482,7 +492,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         strcpy(p, pEnv->envbuf[i]->name);
@@ -551,7 +561,9 @@ void pBat_PushEnvLocals(ENVBUF *pEnv)
 #define PBAT_POP_ENVVAR(pVar, pOld, sort) \
         if ((pOld = (*pVar)->previous) == NULL) {\
 \
-            if ((*pVar)->inherit == 0) { \
+            if ((*pVar)->inherit) { \
+                (*pVar)->inherit = 0; \
+            } else { \
                 /* this variable has to be removed */\
                 free((*pVar)->name); \
                 free((*pVar)->content); \
@@ -566,6 +578,14 @@ void pBat_PushEnvLocals(ENVBUF *pEnv)
             /* We need to inherit the current variable */\
 \
             (*pVar)->previous = pOld->previous;\
+            (*pVar)->inherit = pOld->inherit;\
+\
+            if ((*pVar)->content == NULL && (*pVar)->previous == NULL) {\
+                /* this one has been removed for good */\
+                free((*pVar)->name); \
+                (*pVar)->name = NULL; \
+                sort = 1; \
+            }\
             free(pOld->name);\
             free(pOld->content);\
             free(pOld);\
diff --git a/pbat/core/pBat_Env.h b/pbat/core/pBat_Env.h
index fe06eb4..828f656 100644
--- a/pbat/core/pBat_Env.h
+++ b/pbat/core/pBat_Env.h
@@ -56,6 +56,7 @@ char* pBat_GetEnv(ENVBUF* pEnv, const char* name);
 void  pBat_SetEnvEx(ENVBUF* pEnv, char* name, const char* content, int inherit);
 #define pBat_SetEnv(p,n,c) pBat_SetEnvEx(p,n,c,0)
 void  pBat_UnSetEnv(ENVBUF* pEnv, char* name);
+void  pBat_UnSetEnvEx(ENVBUF* pEnv, char* name, int inherit);
 
 void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s);
 
-- 
2.43.0


From 7ff20d46bfe66af514b128ad2db903f59d361f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 140/165] fix: commands followed by , ; or / were not found
 once DEF defined some others

---
 libpbat/cmdlist/pBat_CmdList.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 333acf9..e7e0177 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -199,7 +199,7 @@ LIBPBAT LPCOMMANDLIST pBat_MapCommandInfo(LPCOMMANDINFO lpciCommandInfo, int i)
     return lpclList;
 }
 
-LIBPBAT COMMANDFLAG   pBat_GetCommandProc(char* lpCommandLine,
+static COMMANDFLAG _pBat_GetCommandProc(char* lpCommandLine,
                 LPCOMMANDLIST lpclCommandList, void** lpcpCommandProcedure)
 {
     int iRet;
@@ -271,6 +271,37 @@ LIBPBAT COMMANDFLAG   pBat_GetCommandProc(char* lpCommandLine,
     return -1;
 }
 
+LIBPBAT COMMANDFLAG   pBat_GetCommandProc(char* lpCommandLine,
+                LPCOMMANDLIST lpclCommandList, void** lpcpCommandProcedure)
+{
+    size_t iSize;
+    char* lpName;
+    COMMANDFLAG cfRet;
+
+    cfRet = _pBat_GetCommandProc(lpCommandLine, lpclCommandList,
+                                                    lpcpCommandProcedure);
+
+    iSize = strcspn(lpCommandLine, " ,;\n\t/");
+
+    if (cfRet != -1 || lpCommandLine[iSize] == '\0')
+        return cfRet;
+
+    /* What follows the name of the command takes part in the comparisons, and
+       might have led to the wrong branch of the tree. Try the name alone. */
+    if (!(lpName = malloc(iSize + 1)))
+        return -1;
+
+    memcpy(lpName, lpCommandLine, iSize);
+    lpName[iSize] = '\0';
+
+    cfRet = _pBat_GetCommandProc(lpName, lpclCommandList,
+                                                    lpcpCommandProcedure);
+
+    free(lpName);
+
+    return cfRet;
+}
+
 LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpclCommandList)
 {
 	int iRet;
-- 
2.43.0


From e8a39afe9a722dd7b9fc0eaa735d2a991fff6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 141/165] fix: the FOR variables in $* of a DEF procedure were
 not replaced

---
 pbat/core/pBat_ExpandDef.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_ExpandDef.c b/pbat/core/pBat_ExpandDef.c
index a186bc5..6166a77 100644
--- a/pbat/core/pBat_ExpandDef.c
+++ b/pbat/core/pBat_ExpandDef.c
@@ -29,12 +29,19 @@ void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
     int i;
     char *args, *next;
     ESTR *restrict ret=pBat_EsInit_Cached(),
-        *restrict param=pBat_EsInit_Cached();
+        *restrict param=pBat_EsInit_Cached(),
+        *restrict all=pBat_EsInit_Cached(),
+        *buf[2]={pBat_EsInit_Cached(), pBat_EsInit_Cached()};
 
     pBat_EsCpy(ret, "");
 
     args = pBat_SkipBlanks(lpCh);
 
+    /* the variables of FOR are those of the caller, they are not known from
+       the procedure */
+    pBat_EsCpy(all, args);
+    pBat_ExpandSpecialVar(all, buf);
+
     /* do not look for symbols in what is substituted, as the arguments
        might hold some */
     while ((next = strchr(lpExp, '$'))) {
@@ -44,7 +51,7 @@ void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
 
         if (next[1] == '*') {
 
-            pBat_EsCat(ret, args);
+            pBat_EsCatE(ret, all);
 
         } else if (next[1] >= '1' && next[1] <= '9') {
 
@@ -70,5 +77,8 @@ void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
 
     pBat_EsFree_Cached(ret);
     pBat_EsFree_Cached(param);
+    pBat_EsFree_Cached(all);
+    pBat_EsFree_Cached(buf[0]);
+    pBat_EsFree_Cached(buf[1]);
 
 }
-- 
2.43.0


From 5ad1529561b64e90b3c83b7f015b5fa47713f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 142/165] fix: free the names of variables in SET /A

---
 libfasteval/lib/parser.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 9098d04..3f71664 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -138,6 +138,9 @@ extern void input_reset (void);
 /* Grammar non-terminal symbols.  */
 %type <number> expression
 
+/* Names that the parser discards because of an error. */
+%destructor { free($$); } <name>
+
 /* Grammar start non-terminal.  */
 %start input
 
@@ -234,12 +237,14 @@ expression
 }
 | VARIABLE '=' expression {
   set_var($1, AS_DOUBLE($3));
+  free($1);
   $$ = $3;
 }
 | VARIABLE {
   /* TODO: Improve this */
   $$.is_double = 0;
   $$.d = get_var($1);
+  free($1);
   $$.i = (int)$$.d;
 }
 ;
-- 
2.43.0


From 72786929b3c36d145e012558acfc9c09b8e88d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 143/165] fix: MOD does not leak a buffer

---
 pbat/command/pBat_Mod.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pbat/command/pBat_Mod.c b/pbat/command/pBat_Mod.c
index 79e0117..577cb2f 100644
--- a/pbat/command/pBat_Mod.c
+++ b/pbat/command/pBat_Mod.c
@@ -291,15 +291,6 @@ int pBat_CmdMod(char* line)
                                __FILE__ "/pBat_CmdMod",
                                -1);
 
-    if ((path = malloc(FILENAME_MAX)) == NULL) {
-
-        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION,
-                                __FILE__ "/pBat_CmdMod", 0);
-        status = PBAT_FAILED_ALLOCATION;
-        goto end;
-
-    }
-
     while (line = pBat_GetNextParameterEs(line, param)) {
 
         if (!stricmp(param->str, "/l")) {
-- 
2.43.0


From 81771d41ccc92315555e198c3a293adc96b377db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 144/165] fix: free environments entirely

---
 pbat/core/pBat_Env.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 68e3122..8b813e1 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -394,10 +394,22 @@ void  pBat_UnSetEnvEx(ENVBUF* pEnv, char* name, int inherit)
 void pBat_EnvFree(ENVBUF* pEnv)
 {
     int i;
+    ENVVAR* pOld;
 
     /* free vars */
     for (i=0;i < pEnv->index; i++) {
 
+        /* the contents that local variables have in previous contexts */
+        while ((pOld = pEnv->envbuf[i]->previous)) {
+
+            pEnv->envbuf[i]->previous = pOld->previous;
+
+            free(pOld->name);
+            free(pOld->content);
+            free(pOld);
+
+        }
+
         if (pEnv->envbuf[i]->name)
             free(pEnv->envbuf[i]->name);
 
@@ -409,6 +421,7 @@ void pBat_EnvFree(ENVBUF* pEnv)
     }
 
     free(pEnv->envbuf);
+    free(pEnv);
 }
 
 void pBat_ApplyEnv(ENVBUF* pEnv)
-- 
2.43.0


From 7c86816c9c578fae318bafff08ddce1ce00b89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 145/165] fix: REN does not leak a string

---
 pbat/command/pBat_Ren.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index f9edccd..36cb309 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -130,6 +130,7 @@ int pBat_CmdRen(char* lpLine)
 
 			}
 
+			pBat_EsFree_Cached(lpEstr);
 			return 0;
 		}
 	}
-- 
2.43.0


From 354bb3052042a7548be66197f2f27b279e290787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 146/165] fix: FOR /F frees the names of files it can not open

---
 pbat/command/pBat_For.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index c1aec17..04f2b03 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1283,6 +1283,7 @@ int pBat_ForMakeInputInfo(ESTR* lpInput, INPUTINFO* lpipInfo, FORINFO* lpfrInfo)
 				pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
                                         lpToken,
                                         FALSE);
+				pBat_ForCloseInputInfo(lpipInfo);
 				return PBAT_FILE_ERROR;
 
 			}
@@ -1559,13 +1560,9 @@ int pBat_ForInputParseFileList(FILE_LIST_T* lpList, ESTR* lpInput)
     lpList->lpesFiles[i] = NULL;
     lpList->index = 0;
 
-    if (!i)
-        return -1;
-
-
     pBat_EsFree_Cached(lpesStr);
 
-    return 0;
+    return i ? 0 : -1;
 }
 
 void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
-- 
2.43.0


From 5118aa002e0733b32197988500eccbe4cfb509f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 147/165] fix: free scripts loaded by a failing CALL and by
 pipes

---
 pbat/command/pBat_Call.c    | 1 +
 pbat/core/pBat_ExitInt.c    | 1 +
 pbat/core/pBat_ReadScript.c | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index a23a0aa..87f4d0c 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -294,6 +294,7 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 		pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabel, FALSE);
 
 		/* the caller's script goes on */
+		pBat_FreeBatchScript(&(ifIn.batch));
 		memcpy(&ifIn, &ifOldFile, sizeof(INPUT_FILE));
 
 		status = PBAT_LABEL_ERROR;
diff --git a/pbat/core/pBat_ExitInt.c b/pbat/core/pBat_ExitInt.c
index 1659707..eaeb2fa 100644
--- a/pbat/core/pBat_ExitInt.c
+++ b/pbat/core/pBat_ExitInt.c
@@ -34,6 +34,7 @@ void pBat_Exit(void)
 	pBat_FreeEnvStack();
 	pBat_EnvFree(lpeEnv);
 	pBat_DirStackFree();
+	pBat_FreeBatchScript(&(ifIn.batch));
 
 	pBat_EsCacheDrop(&ecEstrCache);
 
diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index a7c70e2..930196f 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -354,6 +354,9 @@ void pBat_FreeBatchScript(struct batch_script_t* script)
     *(script->name) = '\0';
     pBat_FreeLabels(script->lbls);
     pBat_FreeCmdlines(script->cmds);
+    script->lbls = NULL;
+    script->cmds = NULL;
+    script->curr = NULL;
 }
 
 void pBat_CopyBatchScript(struct batch_script_t* restrict recv,
-- 
2.43.0


From 6958bb31aa86313803c65fdedc8fef1bcad0f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:07 +0000
Subject: [PATCH 148/165] fix: FOR /R and FOR /D gave names from the root for
 those of the current directory

---
 pbat/command/pBat_Cd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index a163f49..21d6c5a 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -72,6 +72,7 @@ int __inline__ pBat_Canonicalize(char* path)
 {
     char *previous = NULL, *next, *orig = path;
     size_t size = strlen(path) + 1;
+    char absolute = PBAT_TEST_SEPARATOR(path);
 
     /* If the path is UNC, just skip the very first part */
     if (PBAT_TEST_UNC_PATH(path)) {
@@ -150,7 +151,7 @@ reloop:
 
 #ifndef WIN32
     /* everything has been squeezed : this is the root */
-    if (*orig == '\0')
+    if (absolute && *orig == '\0')
         strcpy(orig, "/");
 #endif // WIN32
 
-- 
2.43.0


From 2b22285b82b4854cfa87b13e2f58d3b27f8507f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 149/165] fix: completion did not complete quoted names

---
 pbat/linenoise/linenoise.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 905c02b..6022b2b 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -465,31 +465,31 @@ char* xlibcu8_completion_get_item(const char* restrict pos,
     size_t size = 0;
     char quotes = 0;
     char* ret;
+    const char* p;
 
-    if (buf > pos
-        && *pos == '"')
-        quotes = 1;
+    UNUSED(buf);
 
-    while (pos > orig) {
+    /* find the beginning of the item. This has to be done from the
+       beginning of the line, as there is no other way to know whether
+       separators are quoted */
+    for (p = orig; p < pos; p ++) {
 
-        if (*(pos - 1) == '"') {
+        if (*p == '"') {
 
             quotes = !quotes;
 
-        } else if (!quotes &&
-                   (*(pos - 1) == '\t' || *(pos - 1) == ' '
-                    || *(pos - 1) == '&' || *(pos - 1) == '|')) {
+        } else if (!quotes && (*p == '\t' || *p == ' '
+                               || *p == '&' || *p == '|')) {
 
-            break;
+            orig = p + 1;
 
         }
 
-
-        pos --;
-        size ++;
-
     }
 
+    size = pos - orig;
+    pos = orig;
+
     if (size) {
 
         if (*pos == '"') {
-- 
2.43.0


From c87d80df2641370501bbf079972bad74617587d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 150/165] fix: completion in the middle of a line spoiled what
 follows

---
 pbat/linenoise/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 6022b2b..8c354a6 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -516,7 +516,7 @@ void xlibcu8_completion_insert(const char* completion,
 
     *size -= len;
 
-    memcpy(*pos + len, *pos, *buf - *pos);
+    memmove(*pos + len, *pos, *buf - *pos);
     memcpy(*pos, completion, len);
 
     *pos += len;
-- 
2.43.0


From a974f48d7cfd920dc52ed17dc182aec443aee04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 151/165] fix: Ctrl-T broke characters longer than a byte

---
 pbat/linenoise/linenoise.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 8c354a6..d840f1a 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -1085,10 +1085,19 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             break;
         case CTRL_T:    /* ctrl-t, swaps current character with previous. */
             if (l.pos > 0 && l.pos < l.len) {
-                int aux = buf[l.pos-1];
-                buf[l.pos-1] = buf[l.pos];
-                buf[l.pos] = aux;
-                if (l.pos != l.len-1) l.pos++;
+                /* characters may be longer than a byte */
+                size_t prev = prevCharLen(buf,l.len,l.pos,NULL),
+                    next = nextCharLen(buf,l.len,l.pos,NULL);
+                char *aux = malloc(prev);
+                if (aux == NULL) break;
+                memcpy(aux,buf+l.pos-prev,prev);
+                memmove(buf+l.pos-prev,buf+l.pos,next);
+                memcpy(buf+l.pos-prev+next,aux,prev);
+                free(aux);
+                if (l.pos+next != l.len)
+                    l.pos += next;
+                else
+                    l.pos += next-prev;
                 refreshLine(&l);
             }
             break;
-- 
2.43.0


From 00611fba4cf750dde68bc4a5b3ea3f9cacd824d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 152/165] fix: combining characters without a base and invalid
 characters hung the line edition

---
 pbat/linenoise/utf8.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pbat/linenoise/utf8.c b/pbat/linenoise/utf8.c
index cca22f5..e710989 100644
--- a/pbat/linenoise/utf8.c
+++ b/pbat/linenoise/utf8.c
@@ -443,16 +443,18 @@ size_t linenoiseUtf8NextCharLen(const char* buf, size_t buf_len, size_t pos, siz
     size_t beg = pos;
     int cp;
     size_t len = utf8BytesToCodePoint(buf + pos, buf_len - pos, &cp);
-    if (isCombiningChar(cp)) {
-        /* NOTREACHED */
-        return 0;
+    if (len == 0) {
+        /* not a valid character, never stay there */
+        if (col_len != NULL) *col_len = 1;
+        return 1;
     }
-    if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : 1;
+    /* there may be nothing to combine with */
+    if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : isCombiningChar(cp) ? 0 : 1;
     pos += len;
     while (pos < buf_len) {
         int cp;
         len = utf8BytesToCodePoint(buf + pos, buf_len - pos, &cp);
-        if (!isCombiningChar(cp)) return pos - beg;
+        if (len == 0 || !isCombiningChar(cp)) return pos - beg;
         pos += len;
     }
     return pos - beg;
@@ -467,14 +469,14 @@ size_t linenoiseUtf8PrevCharLen(const char* buf, size_t buf_len, size_t pos, siz
         size_t len = prevUtf8CharLen(buf, pos);
         pos -= len;
         int cp;
-        utf8BytesToCodePoint(buf + pos, len, &cp);
-        if (!isCombiningChar(cp)) {
+        if (utf8BytesToCodePoint(buf + pos, len, &cp) == 0 || !isCombiningChar(cp)) {
             if (col_len != NULL) *col_len = isWideChar(cp) ? 2 : 1;
             return end - pos;
         }
     }
-    /* NOTREACHED */
-    return 0;
+    /* there is nothing to combine with */
+    if (col_len != NULL) *col_len = 0;
+    return end - pos;
 }
 
 /* Read a Unicode from file.
-- 
2.43.0


From 3e73603e6c65c2f5dde171971fc95e031748c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 153/165] fix: a line was run at once if the bytes of a
 character were not read at once, or not valid

---
 pbat/linenoise/utf8.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/pbat/linenoise/utf8.c b/pbat/linenoise/utf8.c
index e710989..7cebf4c 100644
--- a/pbat/linenoise/utf8.c
+++ b/pbat/linenoise/utf8.c
@@ -482,27 +482,33 @@ size_t linenoiseUtf8PrevCharLen(const char* buf, size_t buf_len, size_t pos, siz
 /* Read a Unicode from file.
  */
 size_t linenoiseUtf8ReadCode(int fd, char* buf, size_t buf_len, int* cp) {
-    if (buf_len < 1) return -1;
-    size_t nread = read(fd,&buf[0],1);
-    if (nread <= 0) return nread;
+    size_t len, i;
+    ssize_t nread;
 
-    unsigned char byte = buf[0];
-    if ((byte & 0x80) == 0) {
-        ;
-    } else if ((byte & 0xE0) == 0xC0) {
-        if (buf_len < 2) return -1;
-        nread = read(fd,&buf[1],1);
-        if (nread <= 0) return nread;
-    } else if ((byte & 0xF0) == 0xE0) {
-        if (buf_len < 3) return -1;
-        nread = read(fd,&buf[1],2);
+    if (buf_len < 4) return -1;
+
+    /* bytes that do not begin a character are ignored */
+    do {
+        nread = read(fd,&buf[0],1);
         if (nread <= 0) return nread;
-    } else if ((byte & 0xF8) == 0xF0) {
-        if (buf_len < 3) return -1;
-        nread = read(fd,&buf[1],3);
+
+        unsigned char byte = buf[0];
+        if ((byte & 0x80) == 0)
+            len = 1;
+        else if ((byte & 0xE0) == 0xC0)
+            len = 2;
+        else if ((byte & 0xF0) == 0xE0)
+            len = 3;
+        else if ((byte & 0xF8) == 0xF0)
+            len = 4;
+        else
+            len = 0;
+    } while (len == 0);
+
+    /* the bytes of a character may well not be available at once */
+    for (i = 1; i < len; i++) {
+        nread = read(fd,&buf[i],1);
         if (nread <= 0) return nread;
-    } else {
-        return -1;
     }
 
     return utf8BytesToCodePoint(buf, buf_len, cp);
-- 
2.43.0


From 89fe97a3452d646ec284d03660cdbb728ea71742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 154/165] fix: the last byte of the longest lines was lost by
 the history

---
 pbat/linenoise/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index d840f1a..71da96a 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -947,7 +947,7 @@ void linenoiseEditHistoryNext(struct linenoiseState *l, int dir) {
             return;
         }
         strncpy(l->buf,history[history_len - 1 - l->history_index],l->buflen);
-        l->buf[l->buflen-1] = '\0';
+        l->buf[l->buflen] = '\0';
         l->len = l->pos = strlen(l->buf);
         refreshLine(l);
     }
-- 
2.43.0


From 4585ac70844916d599895dfea82ef4723b4da684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 155/165] fix: listing completions divided by zero when a name
 is as long as the terminal is wide

---
 pbat/core/pBat_Completion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 3f5da4d..f36cb25 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -145,7 +145,7 @@ void pBat_PrintCompletionList(FILELIST* files)
 
     }
 
-    if (max > cols) {
+    if (max >= cols) {
         /* some utterly lengthy filename is messing with us
            apparently */
 
-- 
2.43.0


From bfbd4b09f514b7ac1ab8595ae9ebb713a3a8ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 156/165] fix: completion inserted the first bytes of
 characters that differ

---
 pbat/core/pBat_Completion.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index f36cb25..53f8601 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -212,6 +212,10 @@ int pBat_GetLongestCommonMatch(FILELIST* files, int min)
 
     }
 
+    /* do not leave characters incomplete */
+    while (longest > min && (p[longest] & 0xC0) == 0x80)
+        longest --;
+
     return longest;
 }
 
-- 
2.43.0


From 29fe9e4ebe923dfb31b9d1fd4b171059112908be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 157/165] fix: completion of patterns read beyond the end of
 names

---
 pbat/core/pBat_Completion.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 53f8601..cb5982a 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -221,10 +221,19 @@ int pBat_GetLongestCommonMatch(FILELIST* files, int min)
 
 void pBat_CompletionHandler(const char* in, const char** subst)
 {
-    FILELIST* files;
+    FILELIST* files = NULL;
     ESTR* name = pBat_EsInit_Cached();
     int len, match;
 
+    /* what follows the pattern in the names it matches is unknown */
+    if (strpbrk(in, "*?")) {
+
+        if (subst)
+            *subst = NULL;
+        goto end;
+
+    }
+
     pBat_EsCpy(name, in);
     pBat_EsToFullPath(name);
     len = strlen(name->str);
@@ -234,7 +243,8 @@ void pBat_CompletionHandler(const char* in, const char** subst)
                                     PBAT_SEARCH_DEFAULT
                                     | PBAT_SEARCH_NO_PSEUDO_DIR)) == NULL) {
 
-        *subst = NULL;
+        if (subst)
+            *subst = NULL;
         goto end;
 
     }
-- 
2.43.0


From d3fcff0bdaf260d1ec20385c6f6274418a04bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 158/165] fix: tea read beyond words longer than a line and
 never ended on them

---
 tea/src/Tea.h              |  2 ++
 tea/src/Tea_Output.c       | 26 ++++++++++++++++++++++++++
 tea/src/out/tea_ansi_out.c |  9 ++++++++-
 tea/src/out/tea_text_out.c | 32 +++++++++++---------------------
 4 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/tea/src/Tea.h b/tea/src/Tea.h
index 98968e5..acbc47e 100644
--- a/tea/src/Tea.h
+++ b/tea/src/Tea.h
@@ -99,6 +99,8 @@ void        Tea_MakeMargin(size_t iLength, size_t* iLeft, FILE* pFile);
 
 char*       Tea_OutputWord(char* lpBegin, FILE* pFile, size_t* iLeft);
 
+char*       Tea_OutputLongWord(char* lpBegin, FILE* pFile, size_t* iLeft);
+
 char*       Tea_OutputLineT(char* lpBegin, FILE* pFile, TEANODE* lpTeaNode, size_t* iLeft);
 
 char*       Tea_OutputLine(char* lpBegin, FILE* pFile, size_t* iLeft);
diff --git a/tea/src/Tea_Output.c b/tea/src/Tea_Output.c
index 3e1ae73..24b6f4c 100644
--- a/tea/src/Tea_Output.c
+++ b/tea/src/Tea_Output.c
@@ -128,12 +128,38 @@ char*       Tea_OutputWord(char* lpBegin, FILE* pFile, size_t* iLeft)
 	return lpBegin;
 }
 
+char*       Tea_OutputLongWord(char* lpBegin, FILE* pFile, size_t* iLeft)
+{
+	/* output as much of a word as the line can hold */
+	lpBegin=Tea_OutputWord(lpBegin, pFile, iLeft);
+
+	if (lpBegin) {
+
+		while (*lpBegin==' ')
+			lpBegin++;
+
+		if (*lpBegin=='\0')
+			return NULL;
+
+	}
+
+	return lpBegin;
+}
+
 char*       Tea_OutputLineT(char* lpBegin, FILE* pFile, TEANODE* lpTeaNode, size_t* iLeft)
 {
 	size_t iNextWordLen;
 
 	while (*lpBegin) {
 
+		/* a blank is not worth a new line */
+		if (!*iLeft && *lpBegin==' ') {
+
+			lpBegin++;
+			continue;
+
+		}
+
 		iNextWordLen=Tea_GetWordLengthT(lpBegin, lpTeaNode);
 
 		/* the line is obviously far too big
diff --git a/tea/src/out/tea_ansi_out.c b/tea/src/out/tea_ansi_out.c
index 0fbc7ed..f640c2a 100644
--- a/tea/src/out/tea_ansi_out.c
+++ b/tea/src/out/tea_ansi_out.c
@@ -84,7 +84,8 @@ void Tea_TextAnsiOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** ar
 
 void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength, TEANODE* lpTeaNode, char* lpNl, FILE* pFile)
 {
-	size_t iLeft;
+	size_t iLeft,
+	       iLeftNl;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
 	char   *lpBlock;
@@ -138,10 +139,16 @@ void Tea_TextAnsiOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLeng
 
 				}
 
+				iLeftNl=iLeft;
+
 			}
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
+			/* a word that is longer than the line has to be split */
+			if (iLeftNl==iLeft && lpBlock)
+				lpBlock=Tea_OutputLongWord(lpBlock, pFile, &iLeft);
+
 		}
 
 		if (lpTeaNode->iNodeType
diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 1dbd63f..7aae036 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -77,7 +77,8 @@ void Tea_TextOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 
 void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLength, char* lpBlock, char* lpNl, FILE* pFile)
 {
-	size_t iLeft;
+	size_t iLeft,
+	       iLeftNl;
 	int    bFirstLine=TRUE;
 
 	if ((iMargin >= iLength)
@@ -120,8 +121,14 @@ void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLe
 
 		}
 
+		iLeftNl=iLeft;
+
 		lpBlock=Tea_OutputLine(lpBlock, pFile, &iLeft);
 
+		/* a word that is longer than the line has to be split */
+		if (iLeftNl == iLeft && lpBlock && *lpBlock != '\n')
+			lpBlock=Tea_OutputLongWord(lpBlock, pFile, &iLeft);
+
 	}
 
 }
@@ -132,8 +139,7 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 	       iLeftNl;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
-	char   *lpBlock,
-	       *lpNext;
+	char   *lpBlock;
 
 	if ((iMargin >= iLength)
 	    || (iFirstLine >= iLength)) {
@@ -178,30 +184,14 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
-			if (iLeftNl==iLeft) {
+			if (iLeftNl==iLeft && lpBlock) {
 
 				/* if nothing has been written since we wrote the
 				   last line, it should be that the world is to
 				   long too fit in a single line, thus, we should try
 				   to split it in various lines */
 
-				while (iLeft) {
-
-					lpNext=pBat_GetNextChar(lpBlock);
-
-					while (lpBlock < lpNext) {
-
-						fputc(*lpBlock, pFile);
-						lpBlock++;
-
-					}
-
-					iLeft--;
-
-				}
-
-				while (*lpBlock==' ')
-					lpBlock++;
+				lpBlock=Tea_OutputLongWord(lpBlock, pFile, &iLeft);
 
 			}
 
-- 
2.43.0


From 8e1b3dfaac53ede5e0864461054935366fb8cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 159/165] fix: tea lost backslashes in markdown, where they
 ended emphases too early

---
 tea/src/out/tea_md_out.c | 48 ++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/tea/src/out/tea_md_out.c b/tea/src/out/tea_md_out.c
index 3b24bd6..0e915c8 100644
--- a/tea/src/out/tea_md_out.c
+++ b/tea/src/out/tea_md_out.c
@@ -60,7 +60,8 @@ void Tea_MDOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 			break;
 
 		case TEA_BLOCK_PARAGRAPH:
-            if (*(lpTeaPage->lpTeaNode->lpContent) == '-')
+            if (lpTeaPage->lpTeaNode
+                && *(lpTeaPage->lpTeaNode->lpContent) == '-')
                 *(lpTeaPage->lpTeaNode->lpContent) = '*';
 
 			Tea_TextOutputParagraph(2*(lpTeaPage->iBlockLevel),
@@ -82,26 +83,35 @@ void Tea_MDOutputHandler(TEAPAGE* lpTeaPage, FILE* pFile, int i, char** argv)
 
 void Tea_MDEscape(char** pp)
 {
-    ESTR* estr= pBat_EsInit();
-    char* new;
-
-    pBat_EsCpy(estr, *pp);
-    pBat_EsReplace(estr, "_", "\\\\_");
-    pBat_EsReplace(estr, "*", "\\\\*");
-    pBat_EsReplace(estr, "]", "\\\\]");
-    pBat_EsReplace(estr, "[", "\\\\[");
-    pBat_EsReplace(estr, "(", "\\\\(");
-    pBat_EsReplace(estr, ")", "\\\\)");
-    pBat_EsReplace(estr, "|", "\\\\|");
-    pBat_EsReplace(estr, "~", "\\\\~");
-    pBat_EsReplace(estr, "#", "\\\\#");
-
-    if ((new = strdup(estr->str))) {
-        free(*pp);
-        *pp = new;
+    char *new, *q, *p;
+    int escaped;
+
+    if (!(new = malloc(4*strlen(*pp)+1)))
+        return;
+
+    /* characters are still escaped as in the source here, thus what has to
+       be escaped in the output must be escaped twice */
+    for (p = *pp, q = new ; *p ; p++) {
+
+        if ((escaped = (*p == '\\' && *(p+1))))
+            p++;
+
+        if (strchr("\\_*][()|~#", *p)) {
+            *(q++) = '\\';
+            *(q++) = '\\';
+            escaped = 1;
+        }
+
+        if (escaped)
+            *(q++) = '\\';
+
+        *(q++) = *p;
     }
 
-    pBat_EsFree(estr);
+    *q = '\0';
+
+    free(*pp);
+    *pp = new;
 }
 
 void Tea_MDParseHandler(int iMsg ,void* lpData)
-- 
2.43.0


From 52e18c47c483f0bdb1998c22c0256da4be208c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 160/165] fix: tea took documents without any block for files
 it could not open

---
 tea/src/Tea_Load.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tea/src/Tea_Load.c b/tea/src/Tea_Load.c
index ea4e9b7..9af6f23 100644
--- a/tea/src/Tea_Load.c
+++ b/tea/src/Tea_Load.c
@@ -78,6 +78,14 @@ TEAPAGE*    Tea_PageLoad(const char* lpFilename, LP_PARSE_HANDLER pHandler)
 	/* on supprime les blocs vides */
 	lpTeaPage=Tea_RemoveVoidBlocks(lpTeaPage);
 
+	/* an empty document is not an error */
+	if (lpTeaPage == NULL) {
+
+		lpTeaPage=Tea_AllocTeaPage();
+		lpTeaPage->lpBlockContent=strdup("");
+
+	}
+
 	/* on parse les paragraphes */
 	Tea_ParseParagraphs(lpTeaPage, pHandler);
 
-- 
2.43.0


From ea5cb73e98cb0c8b43746e21e8d44d910bd7e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 161/165] fix: tea dropped blanks after escaped characters of
 titles

---
 tea/src/Tea_Load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tea/src/Tea_Load.c b/tea/src/Tea_Load.c
index 9af6f23..c22aed2 100644
--- a/tea/src/Tea_Load.c
+++ b/tea/src/Tea_Load.c
@@ -460,6 +460,7 @@ int         Tea_SweepSpace(char* lpContent)
 			if (*(lpContent+1)) {
 
 				lpContent++;
+				iSpaceGroup=FALSE;
 
 			} else {
 
-- 
2.43.0


From 776f0e360b97eef2a2dafc87b18cd6f742daa3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 162/165] fix: tea left the escapes in the targets of links

---
 tea/src/Tea_Node.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tea/src/Tea_Node.c b/tea/src/Tea_Node.c
index 39534c7..88bad66 100644
--- a/tea/src/Tea_Node.c
+++ b/tea/src/Tea_Node.c
@@ -190,10 +190,18 @@ TEANODE*    Tea_ParseStringNode(char* lpContent, LP_PARSE_HANDLER pHandler)
 
 int         Tea_PurifyNode(TEANODE* lpTeaNode)
 {
-	int iSweepBegin=TRUE;
+	int iSweepBegin=TRUE,
+	    iSweepTarget;
 
 	while (lpTeaNode) {
 		Tea_SweepSpaceNode(lpTeaNode->lpContent, &iSweepBegin);
+
+		/* the target may contain escaped characters, too */
+		if (lpTeaNode->lpTarget) {
+			iSweepTarget=TRUE;
+			Tea_SweepSpaceNode(lpTeaNode->lpTarget, &iSweepTarget);
+		}
+
 		lpTeaNode=lpTeaNode->lpTeaNodeNext;
 	}
 	return 0;
-- 
2.43.0


From c28c8636a77a118f31b46d31e73b75fba9fc99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:21 +0000
Subject: [PATCH 163/165] fix: tea repeated parts of texts ending by a
 backslash

---
 tea/src/Tea_Load.c | 1 +
 tea/src/Tea_Node.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/tea/src/Tea_Load.c b/tea/src/Tea_Load.c
index c22aed2..82f0a00 100644
--- a/tea/src/Tea_Load.c
+++ b/tea/src/Tea_Load.c
@@ -464,6 +464,7 @@ int         Tea_SweepSpace(char* lpContent)
 
 			} else {
 
+				*lpNextContent='\0';
 				return 0;
 
 			}
diff --git a/tea/src/Tea_Node.c b/tea/src/Tea_Node.c
index 88bad66..e8fe1a2 100644
--- a/tea/src/Tea_Node.c
+++ b/tea/src/Tea_Node.c
@@ -221,6 +221,8 @@ int         Tea_SweepSpaceNode(char* lpContent, int* iSweepBegin)
 				lpContent++;
 				iSpaceGroup=FALSE;
 			} else {
+				*lpNextContent='\0';
+				*iSweepBegin=iSpaceGroup;
 				return 0;
 			}
 			break;
-- 
2.43.0


From 0fdebf83c03ae960f6ee027d6c2fbb4f56484e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 164/165] fix: CALL could not run programs whose path holds
 blanks

---
 pbat/command/pBat_Call.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 87f4d0c..3f00e9b 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -425,8 +425,10 @@ int pBat_CmdCallExternal(char* lpFile, char* lpCh)
 
 	char *lpStr;
 
-	pBat_EsCpy(lpEsLine, lpFile);
-	pBat_EsCat(lpEsLine, " ");
+	/* quote the name, there may be blanks in the path of the command */
+	pBat_EsCpy(lpEsLine, "\"");
+	pBat_EsCat(lpEsLine, lpFile);
+	pBat_EsCat(lpEsLine, "\" ");
 	pBat_EsCat(lpEsLine, lpCh);
 
     /* Offer a free new expansion turn  */
-- 
2.43.0


From 0f685c3f8282f8e5e4c0a621dd37a618641c480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:24 +0000
Subject: [PATCH 165/165] fix: the error level of documents started was not the
 exit code of the start script

---
 pbat/core/pBat_Exec.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index b97aa1e..911503e 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -650,8 +650,16 @@ int pBat_StartFile(EXECINFO* info, int* error)
 
     } else {
 
-        if  (info->flags & PBAT_EXEC_WAIT)
-            waitpid(pid, &status, 0);
+        if  (info->flags & PBAT_EXEC_WAIT
+            && waitpid(pid, &status, 0) != -1) {
+
+            /* return the exit code as programs do */
+            if (WIFSIGNALED(status))
+                status = 128 + WTERMSIG(status);
+            else
+                status = WEXITSTATUS(status);
+
+        }
 
     }
 
-- 
2.43.0

