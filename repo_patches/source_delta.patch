From c6c24d9255aca3c3303b53b0791cdb4dc72dc5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 01/94] fix: i64.extend16_s and i64.extend32_s sign-extended
 from 8 bits

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From 54a04a119f55925e2e3e8506c40e0f4de567f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 02/94] fix: signed LEB128 values of more than 31 bits were
 sign-extended wrongly

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..a9801cc 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= - ((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From f0aeb62063b1f40e9e914f99a44a51863e247328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 03/94] fix: i32.rem_s and i64.rem_s of INT_MIN by -1 trapped
 instead of yielding 0

---
 pwart/extfunc.c   | 2 +-
 pwart/opgen_num.c | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..d6293b6 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -215,7 +215,7 @@ static void insn_i64rotr(uint64_t *fp){
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
 static void insn_i64divu(uint64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-static void insn_i64rems(int64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
+static void insn_i64rems(int64_t *fp){ *fp = *(fp + 1) == -1 ? 0 : (*fp) % (*(fp + 1)); }
 static void insn_i64remu(uint64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
 static void insn_i64shl(uint64_t *fp){ *fp = (*fp) << (*(fp + 1)); }
 static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..32cebae 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -513,6 +513,11 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
       }
       a = SLJIT_R1;
+      // INT_MIN % -1 traps on some CPU, but must be 0: x % -1 == 0 % -1 == 0
+      jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL | SLJIT_32, SLJIT_R1, 0,
+                            SLJIT_IMM, -1);
+      sljit_emit_op1(m->jitc, SLJIT_MOV32, SLJIT_R0, 0, SLJIT_IMM, 0);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
       sljit_emit_op0(m->jitc, SLJIT_DIVMOD_S32);
     } break;
     case 0x70: // i32.rem_u
@@ -657,6 +662,10 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
         }
         a = SLJIT_R1;
+        jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, SLJIT_R1, 0, SLJIT_IMM,
+                              -1);
+        sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0);
+        sljit_set_label(jump, sljit_emit_label(m->jitc));
         sljit_emit_op0(m->jitc, SLJIT_DIVMOD_SW);
       } break;
       case 0x82: // i64.rem_u
-- 
2.43.0


From 543db09589b5ea65f22c0a815b4ad8d6b2344876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 04/94] fix: f32/f64 min and max ignored NaN operands and the
 sign of zero

---
 pwart/extfunc.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d6293b6..8f4c679 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -222,20 +222,48 @@ static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp, b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? b : a; // +0 is greater than -0
+  } else {
+    *fp = a > b ? a : b;
+  }
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp, b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? a : b; // -0 is less than +0
+  } else {
+    *fp = a < b ? a : b;
+  }
 }
 static void insn_f32copysign(float *fp){
   *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp, b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? b : a; // +0 is greater than -0
+  } else {
+    *fp = a > b ? a : b;
+  }
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp, b = *(fp + 1);
+  if (a != a || b != b) {
+    *fp = a + b; // NaN
+  } else if (a == b) {
+    *fp = signbit(a) ? a : b; // -0 is less than +0
+  } else {
+    *fp = a < b ? a : b;
+  }
 }
 static void insn_f64copysign(double *fp){
   *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
-- 
2.43.0


From 946d01613cb08de5334599b7458fcc5502d4d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 05/94] fix: f32/f64 copysign had its operands swapped

---
 pwart/extfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 8f4c679..d415046 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -242,7 +242,7 @@ static void insn_f32min(float *fp){
   }
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
@@ -266,7 +266,7 @@ static void insn_f64min(double *fp){
   }
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysign(*fp, *(fp + 1));
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From 44887bfa88f7f9c6e6820af6012db46132d464a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 06/94] fix: i64.clz, i64.ctz and i64.popcnt left stale upper
 result bits

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d415046..39143ca 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From ef7b96c61be4425f53e9428883d3e3c71b291bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 07/94] fix: rotate by zero shifted by the full width
 (undefined behaviour)

---
 pwart/extfunc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 39143ca..d6ecd1c 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -191,26 +191,26 @@ static void insn_i32rotl(uint32_t *fp){
   uint32_t x = *fp;
   uint32_t y = *(fp + 1);
   y = y & 31;
-  *fp = (x << y) | (x >> (32 - y));
+  *fp = (x << y) | (x >> ((32 - y) & 31));
 }
 static void insn_i32rotr(uint32_t *fp){
   uint32_t x = *fp;
   uint32_t y = *(fp + 1);
   y = y & 31;
-  *fp = (x >> y) | (x << (32 - y));
+  *fp = (x >> y) | (x << ((32 - y) & 31));
 }
 
 static void insn_i64rotl(uint64_t *fp){
   uint64_t x = *fp;
   uint64_t y = *(fp + 1);
   y = y & 63;
-  *fp = (x << y) | (x >> (64 - y));
+  *fp = (x << y) | (x >> ((64 - y) & 63));
 }
 static void insn_i64rotr(uint64_t *fp){
   uint64_t x = *fp;
   uint64_t y = *(fp + 1);
   y = y & 63;
-  *fp = (x >> y) | (x << (64 - y));
+  *fp = (x >> y) | (x << ((64 - y) & 63));
 }
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-- 
2.43.0


From 28988ac9d77fc3a445c81355888c34a5e90cf900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 08/94] fix: call arguments were not contiguous after a call
 with an aligned frame, or overwrote each other in tail calls

---
 pwart/opgen_utils.c | 103 ++++++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 42 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..4055532 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -29,6 +29,9 @@ static uint32_t wasmtype_GetSizeAndAlign(int wasm_type,uint32_t *align){
 static int stackvalue_IsFloat(StackValue *sv) {
   return sv->wasm_type == WVT_F32 || sv->wasm_type == WVT_F64;
 }
+static int stackvalue_IsOnFrame(StackValue *sv) {
+  return sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_S0);
+}
 static uint32_t stackvalue_GetSizeAndAlign(StackValue *sv, uint32_t *align) {
   return wasmtype_GetSizeAndAlign(sv->wasm_type,align);
 }
@@ -358,6 +361,59 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 }
 
 
+// store 'len' arguments into the frame which start at args->frame_offset, without gap between arguments.
+static void pwart_EmitPlaceArguments(ModuleCompiler *m,StackValue *args,int len){
+  int i,j,off,end,size,progress;
+  StackValue *sv,*blocked;
+  off=args->frame_offset;
+  end=off;
+  for(i=0;i<len;i++){
+    sv=args+i;
+    size=stackvalue_GetSizeAndAlign(sv,NULL);
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      off=stackvalue_GetAlignedOffset(sv,off,NULL);
+    }
+    sv->frame_offset=off;
+    off+=size;
+    if(stackvalue_IsOnFrame(sv) && sv->val.opw+size>end)end=sv->val.opw+size;
+  }
+  if(off>end)end=off;
+  end=(end+7)&~7;
+  // never overwrite a value which is still waiting to be moved.
+  do{
+    progress=0;
+    blocked=NULL;
+    for(i=0;i<len;i++){
+      sv=args+i;
+      if(stackvalue_IsOnFrame(sv) && sv->val.opw==sv->frame_offset)continue;
+      off=sv->frame_offset;
+      size=stackvalue_GetSizeAndAlign(sv,NULL);
+      for(j=0;j<len;j++){
+        if(j!=i && stackvalue_IsOnFrame(args+j) && args[j].val.opw!=args[j].frame_offset &&
+          args[j].val.opw<off+size &&
+          off<args[j].val.opw+(int)stackvalue_GetSizeAndAlign(args+j,NULL))break;
+      }
+      if(j<len){
+        blocked=sv;
+      }else{
+        pwart_EmitSaveStack(m,sv);
+        progress=1;
+      }
+    }
+    if(blocked!=NULL && !progress){
+      // arguments swap place, find another place for one of them.
+      for(j=0;j<len;j++){
+        if(stackvalue_IsOnFrame(args+j) && args[j].val.opw!=args[j].frame_offset){
+          pwart_EmitStoreStackValue(m,args+j,SLJIT_MEM1(SLJIT_S0),end);
+          args[j].val.opw=end;
+          end+=8;
+          break;
+        }
+      }
+    }
+  }while(blocked!=NULL);
+}
+
 static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg,
                               sljit_sw offset,int callReturn) {
   StackValue *sv;
@@ -381,51 +437,14 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  if(callReturn){
+    //tail call, arguments replace our own parameters.
+    sv->frame_offset=0;
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
     sv->frame_offset+=4;
-    if(len>0){
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-      }
-      //re-save stackvalue from last to head, to avoid stack overwriting
-      sv=m->stack+m->sp;
-      for(a=0;a<len;a++){
-        pwart_EmitSaveStack(m,sv);
-        sv--;
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
-  }else{
-    for(i=len;i>0;i--){
-      m->sp++;
-      pwart_EmitSaveStack(m,&m->stack[m->sp]);
-    }
-    //move sp back
-    m->sp-=len;
-    sv=m->stack+m->sp+1; // first argument
   }
+  pwart_EmitPlaceArguments(m,sv,len);
 
   func_frame_offset=sv->frame_offset;
   
-- 
2.43.0


From bafcc0eaa090a2d319a20d9c61744356e1596a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 09/94] fix: a result stored on return could overwrite another
 result (e.g. parameters returned in another order)

---
 pwart/opgen_utils.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 4055532..9bc641e 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -492,23 +492,17 @@ static char *pwart_EmitCallFunc(ModuleCompiler *m, Type *type, sljit_s32 memreg,
 }
 
 static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
-  int idx, len, off;
+  int len;
   StackValue *sv;
-  off = 0;
   len = strlen((const char *)m->function_type->results);
   if(m->sp+1<len){
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
-  for (idx = 0; idx < len; idx++) {
-    sv = &m->stack[m->sp - len + idx + 1];
-    if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-      pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0),
-        stackvalue_GetAlignedOffset(sv,off,&off));
-    }else{
-      pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0), off);
-      off += stackvalue_GetSizeAndAlign(sv, NULL);
-    }
+  if(len>0){
+    sv = &m->stack[m->sp - len + 1];
+    sv->frame_offset = 0;
+    pwart_EmitPlaceArguments(m, sv, len);
   }
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc);
-- 
2.43.0


From 7503e20e6949bd927fe379f9bfc1c66a3543e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 10/94] fix: br_table on a local variable changed the variable

---
 pwart/opgen_ctl.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..f543f5b 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -196,12 +196,17 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
-  pwart_EmitStackValueLoadReg(m, sv);
+  // the index is decremented below, it must not share the register of a local variable.
+  a = pwart_GetFreeReg(m, RT_INTEGER, 0);
+  pwart_EmitLoadReg(m, sv, a);
+  sv->jit_type = SVT_GENERAL;
+  sv->val.op = a;
+  sv->val.opw = 0;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
     if (a == 0) {
-      sljit_emit_op2u(m->jitc, SLJIT_AND | SLJIT_SET_Z, sv->val.op, sv->val.opw,
+      sljit_emit_op2u(m->jitc, SLJIT_AND32 | SLJIT_SET_Z, sv->val.op, sv->val.opw,
                       sv->val.op, sv->val.opw);
     } else {
       sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
-- 
2.43.0


From 2cce540c4ceadb6c75215b34cc090b68ce500a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 11/94] fix: typed select was rejected and its type immediate
 was not skipped

---
 pwart/opgen_ctl.c | 5 ++++-
 pwart/wagen.c     | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index f543f5b..9fbba33 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -377,7 +377,10 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);
+    for (int32_t i = 0; i < count; i++) {
+      read_LEB(bytes, &m->pc, 32); // value type
+    }
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..9aeaec8 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -48,7 +48,10 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32);
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, pos, 32);
+    }
     break;
   // varint64
   case 0x42: // i64.const
@@ -334,7 +337,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= 0x1c) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
-- 
2.43.0


From 90175aa80eb114392a5da11fe124d032dfbcf01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 12/94] fix: memory index and offset of a load/store were
 swapped when choosing the memory to cache

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 9aeaec8..87a9cc6 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -227,8 +227,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From d7df6aee1bbb696469688a7240288ed236d2f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 13/94] fix: unreachable code after a branch or return
 corrupted the operand stack of the code generator

---
 pwart/opgen_ctl.c | 22 ++++++++++++++--------
 pwart/wagen.c     | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 9fbba33..51956b7 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -7,7 +7,9 @@
 #include "opgen_utils.c"
 
 static void opgen_GenUnreachable(ModuleCompiler *m) {
-  //just do nothing now.
+  //XXX: no trap now, just leave the function.
+  sljit_emit_return_void(m->jitc);
+  m->block_returned=1;
 }
 
 static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
@@ -75,10 +77,13 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
 
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
-  *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-      sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  if (!m->block_returned) {
+    pwart_EmitSaveStackAll(m);
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
+        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  }
+  m->block_returned = 0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
@@ -93,7 +98,9 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   Block *block = dynarr_pop_type(&m->blocks, Block);
   int a;
   if (block->block_type == 0x2 || block->block_type == 0x4) {
-    pwart_EmitSaveStackAll(m);
+    if (!m->block_returned) {
+      pwart_EmitSaveStackAll(m);
+    }
     // if block
     block->br_label = sljit_emit_label(m->jitc);
     for (a = 0; a < block->br_jump->len; a++) {
@@ -136,9 +143,7 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
     *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
-  if(block->block_type==0x2 || block->block_type==0x4){
-    m->block_returned=1;
-  }
+  m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
@@ -230,6 +235,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
   m->sp--;
+  m->block_returned=1;
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 87a9cc6..e67bbc5 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -21,7 +21,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
-  case 0x10:          // call
+  case 0x10: case 0x12: // call, return_call
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -35,6 +35,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x23: //global.get
   case 0x24: //global.set
+  case 0x25: //table.get
+  case 0x26: //table.set
   case 0xd0: //ref.null
   case 0xd2: //ref.func
     read_LEB(bytes, pos, 32);
@@ -43,7 +45,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 32);
     break;
   // varuint32 + varuint1
-  case 0x11: // call_indirect
+  case 0x11: case 0x13: // call_indirect, return_call_indirect
     read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 1);
     break;
@@ -290,6 +292,29 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+// skip the code which follows an unconditional branch, up to the 'else' or 'end' of current block.
+static void pwart_SkipDeadCode(ModuleCompiler *m) {
+  int depth = 0;
+  while (m->pc < m->byte_count) {
+    switch (m->bytes[m->pc]) {
+    case 0x02: case 0x03: case 0x04: // block, loop, if
+      depth++;
+      break;
+    case 0x05: // else
+      if (depth == 0) return;
+      break;
+    case 0x0b: // end
+      if (depth == 0) return;
+      depth--;
+      break;
+    }
+    wasm_SkipImmediates(m->bytes, &m->pc);
+#if DEBUG_BUILD
+    m->insnCnt--;
+#endif
+  }
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -339,6 +364,10 @@ static char *pwart_GenCode(ModuleCompiler *m) {
 
     if (opcode >= 0 && opcode <= 0x1c) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
+      if (m->block_returned && !m->eof) {
+        // the operand stack is not meaningful in unreachable code, don't generate code for it.
+        pwart_SkipDeadCode(m);
+      }
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
     } else if (opcode <= 0xc4) {
-- 
2.43.0


From 96b20f40601b0b362859f645e8a38caa616fc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 14/94] fix: a branch carrying a block result past other
 pending operands took the wrong value; branch to the function label

---
 pwart/def.h       |   1 +
 pwart/opgen_ctl.c | 127 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 97 insertions(+), 31 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..f5907e9 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -67,6 +67,7 @@ typedef struct Block {
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
     int16_t    saved_sp;      //sp when enter block.
+    uint8_t    result_type;   //type of the block result, if stack_offset is 1.
     //Type      *type;           params/results type
     struct sljit_jump *else_jump;     // if block only
     struct sljit_label *br_label;       // blocks only
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 51956b7..7d26f73 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -6,20 +6,62 @@
 #include "def.h"
 #include "opgen_utils.c"
 
+// push the block result, which is stored on stack frame, just above the stack values saved at block entry.
+static StackValue *opgen_PushBlockResult(ModuleCompiler *m, Block *block) {
+  StackValue *sv;
+  m->sp = block->saved_sp;
+  sv = stackvalue_Push(m, block->result_type);
+  sv->val.op = SLJIT_MEM1(SLJIT_S0);
+  sv->val.opw = sv->frame_offset;
+  return sv;
+}
+
+// check if we only need a jump to leave the block.
+static int opgen_IsSimpleBranch(ModuleCompiler *m, Block *block) {
+  return block->block_type == 0x3 || (block->block_type != 0x0 && block->stack_offset == 0);
+}
+
+// emit code to leave the block unconditionally, the operand stack of the compiler will be restored.
+static void opgen_EmitBranch(ModuleCompiler *m, Block *block) {
+  StackValue saved[OPERAND_STACK_COUNT];
+  StackValue top;
+  int saved_sp = m->sp;
+  memcpy(saved, m->stack, sizeof(saved));
+  if (block->block_type == 0x0) {
+    // function
+    pwart_EmitFuncReturn(m);
+  } else {
+    if (!opgen_IsSimpleBranch(m, block) && m->sp > block->saved_sp) {
+      top = m->stack[m->sp];
+      pwart_EmitStoreStackValue(m, &top, SLJIT_MEM1(SLJIT_S0),
+                                opgen_PushBlockResult(m, block)->frame_offset);
+    }
+    if (block->br_label != NULL) {
+      sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
+    } else {
+      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
+          sljit_emit_jump(m->jitc, SLJIT_JUMP);
+    }
+  }
+  memcpy(m->stack, saved, sizeof(saved));
+  m->sp = saved_sp;
+}
+
 static void opgen_GenUnreachable(ModuleCompiler *m) {
   //XXX: no trap now, just leave the function.
   sljit_emit_return_void(m->jitc);
   m->block_returned=1;
 }
 
-static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenBlock(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x2;
   dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   block->else_jump = NULL;
-  block->stack_offset=stackOffset;
+  block->stack_offset=resultType!=0?1:0;
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -27,13 +69,14 @@ static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x3;
   block->br_label = sljit_emit_label(m->jitc);
-  block->stack_offset=stackOffset;
+  block->stack_offset=resultType!=0?1:0;
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -41,7 +84,7 @@ static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenIf(ModuleCompiler *m,int resultType) {
   Block *block;
   StackValue *sv;
   struct sljit_jump *jump;
@@ -70,7 +113,8 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   }
   block->else_jump = jump;
   m->sp--;
-  block->stack_offset=stackOffset;
+  block->stack_offset=resultType!=0?1:0;
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   
 }
@@ -80,8 +124,7 @@ static void opgen_GenElse(ModuleCompiler *m) {
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
   if (!m->block_returned) {
     pwart_EmitSaveStackAll(m);
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+    opgen_EmitBranch(m, block);
   }
   m->block_returned = 0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
@@ -100,6 +143,11 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   if (block->block_type == 0x2 || block->block_type == 0x4) {
     if (!m->block_returned) {
       pwart_EmitSaveStackAll(m);
+      if (!opgen_IsSimpleBranch(m, block) && m->sp > block->saved_sp) {
+        StackValue top = m->stack[m->sp];
+        pwart_EmitStoreStackValue(m, &top, SLJIT_MEM1(SLJIT_S0),
+                                  opgen_PushBlockResult(m, block)->frame_offset);
+      }
     }
     // if block
     block->br_label = sljit_emit_label(m->jitc);
@@ -118,7 +166,12 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     }
     m->eof = 1;
   } 
-  m->sp=block->saved_sp+block->stack_offset;
+  if (block->block_type != 0x00 && block->stack_offset > 0 &&
+      (block->block_type != 0x3 || m->block_returned)) {
+    opgen_PushBlockResult(m, block);
+  } else {
+    m->sp=block->saved_sp+block->stack_offset;
+  }
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
   }
@@ -137,12 +190,7 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
+  opgen_EmitBranch(m, block);
   m->block_returned=1;
 }
 
@@ -161,6 +209,21 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
+  if (!opgen_IsSimpleBranch(m, block)) {
+    struct sljit_jump *skip;
+    if (sv->jit_type == SVT_CMP) {
+      //inverse flag, we supposed inverse flag are always set.
+      skip = sljit_emit_jump(m->jitc, sv->val.cmp.flag ^ 0x1);
+    } else {
+      pwart_EmitStackValueLoadReg(m, sv);
+      skip = sljit_emit_cmp(m->jitc, SLJIT_EQUAL, sv->val.op, sv->val.opw,
+                            SLJIT_IMM, 0);
+    }
+    m->sp--;
+    opgen_EmitBranch(m, block);
+    sljit_set_label(skip, sljit_emit_label(m->jitc));
+    return;
+  }
   if (sv->jit_type == SVT_CMP) {
     if (block->br_label != NULL) {
       sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
@@ -217,7 +280,13 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
       sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
                      sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
     }
-    if (block->br_label != NULL) {
+    if (!opgen_IsSimpleBranch(m, block)) {
+      struct sljit_jump *skip = sljit_emit_jump(m->jitc, SLJIT_NOT_ZERO);
+      m->sp--;
+      opgen_EmitBranch(m, block);
+      m->sp++;
+      sljit_set_label(skip, sljit_emit_label(m->jitc));
+    } else if (block->br_label != NULL) {
       sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
     } else {
       *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
@@ -228,13 +297,8 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
   m->sp--;
+  opgen_EmitBranch(m, block);
   m->block_returned=1;
 }
 
@@ -303,12 +367,13 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   sljit_set_label(jump, sljit_emit_label(m->jitc));
 }
 
-static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
+//resultType is set to 0 if block has no result.
+static char *opgen_ParseBlockType(ModuleCompiler *m,int *resultType){
   if(*(m->bytes+m->pc)==0x40){
-    *stackOffset=0;
+    *resultType=0;
     m->pc++;
   }else if(((*(m->bytes+m->pc))&0xC0)==0x40){
-    *stackOffset=1;
+    *resultType=*(m->bytes+m->pc);
     m->pc++;
   }else{
     return "Not support type index for block type";
@@ -327,16 +392,16 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case 0x01: // nop
     break;
   case 0x02: // block
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenBlock(m,count);
+    ReturnIfErr(opgen_ParseBlockType(m,&blktype));
+    opgen_GenBlock(m,blktype);
     break;
   case 0x03: // loop
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenLoop(m,count);
+    ReturnIfErr(opgen_ParseBlockType(m,&blktype));
+    opgen_GenLoop(m,blktype);
     break;
   case 0x04: // if
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenIf(m,count);
+    ReturnIfErr(opgen_ParseBlockType(m,&blktype));
+    opgen_GenIf(m,blktype);
     break;
   case 0x05: // else
     opgen_GenElse(m);
-- 
2.43.0


From 2f9c4505c485a2730a10b45cbfee2b348144bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 15/94] fix: placing overlapping arguments could loop forever
 in the compiler

---
 pwart/opgen_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 9bc641e..fd1be88 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -363,7 +363,7 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 
 // store 'len' arguments into the frame which start at args->frame_offset, without gap between arguments.
 static void pwart_EmitPlaceArguments(ModuleCompiler *m,StackValue *args,int len){
-  int i,j,off,end,size,progress;
+  int i,j,off,end,limit,size,progress;
   StackValue *sv,*blocked;
   off=args->frame_offset;
   end=off;
@@ -379,6 +379,7 @@ static void pwart_EmitPlaceArguments(ModuleCompiler *m,StackValue *args,int len)
   }
   if(off>end)end=off;
   end=(end+7)&~7;
+  limit=end;
   // never overwrite a value which is still waiting to be moved.
   do{
     progress=0;
@@ -403,7 +404,7 @@ static void pwart_EmitPlaceArguments(ModuleCompiler *m,StackValue *args,int len)
     if(blocked!=NULL && !progress){
       // arguments swap place, find another place for one of them.
       for(j=0;j<len;j++){
-        if(stackvalue_IsOnFrame(args+j) && args[j].val.opw!=args[j].frame_offset){
+        if(stackvalue_IsOnFrame(args+j) && args[j].val.opw!=args[j].frame_offset && args[j].val.opw<limit){
           pwart_EmitStoreStackValue(m,args+j,SLJIT_MEM1(SLJIT_S0),end);
           args[j].val.opw=end;
           end+=8;
-- 
2.43.0


From f7007c195bc04c7b7ebce11e3d15a09480932565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 16/94] fix: float registers above the integer register count
 were not saved across calls

---
 pwart/opgen_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index fd1be88..8ddb83b 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -237,7 +237,9 @@ static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
   for (i = 0; i <= m->sp-upstack; i++) {
     if(m->stack[i].jit_type==SVT_GENERAL){
       usereg=SLJIT_GET_REG_PART(m->stack[i].val.op);
-      if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
+      if(usereg!=0 && (usereg< SLJIT_FIRST_SAVED_REG ||
+        ((m->stack[i].val.op & SLJIT_MEM)==0 && stackvalue_IsFloat(m->stack+i)))){
+        //XXX: all float registers on operand stack are scratch.
         pwart_EmitSaveStack(m,m->stack+i);
       }
     }else if(m->stack[i].jit_type==SVT_TWO_REG){
-- 
2.43.0


From 656ebaea675d101611e7a54ce8e2910e062d011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 17/94] fix: one float register too many was handed out, and
 the wrong one was reserved

---
 pwart/opgen_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 8ddb83b..6b9c853 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -580,7 +580,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
@@ -599,12 +599,12 @@ static sljit_s32 pwart_GetFreeRegExcept(ModuleCompiler *m, sljit_s32 regtype,
                                         sljit_s32 except, int upstack) {
   sljit_s32 r1;
   if (regtype == RT_FLOAT) {
-    if (m->float_registers_status[except - SLJIT_R0] & RS_RESERVED) {
+    if (m->float_registers_status[except - SLJIT_FR0] & RS_RESERVED) {
       return pwart_GetFreeReg(m, regtype, upstack);
     } else {
-      m->float_registers_status[except - SLJIT_R0] |= RS_RESERVED;
+      m->float_registers_status[except - SLJIT_FR0] |= RS_RESERVED;
       r1 = pwart_GetFreeReg(m, regtype, upstack);
-      m->float_registers_status[except - SLJIT_R0] &= ~RS_RESERVED;
+      m->float_registers_status[except - SLJIT_FR0] &= ~RS_RESERVED;
       return r1;
     }
   } else {
-- 
2.43.0


From 3e439b2413efc6075f03b3d53d6f37069d276221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 18/94] fix: memory.size, table.size and ref.func were read
 only when used, after later changes, through a register that may have been
 reused

---
 pwart/opgen_mem.c  | 1 +
 pwart/opgen_misc.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..22ab65b 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -144,6 +144,7 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
   opgen_GenI32Const(m,index);
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..7edc3f4 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -40,6 +40,7 @@ static void opgen_GenRefFunc(ModuleCompiler *m, int32_t fidx) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 
 static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
@@ -52,6 +53,7 @@ static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(r);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 
 static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
-- 
2.43.0


From a95820bccd8edad25d2a13fba5c3f170f641746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 19/94] fix: setting a local changed a pending reinterpreted
 value read from it before

---
 pwart/opgen_mem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 22ab65b..3b3cc6d 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM) || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM) || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
-- 
2.43.0


From 6e96620fa35f2433c2c1f05fab334cd08c55166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 20/94] fix: only the lower half of f64 locals was initialised
 to zero

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 6b9c853..1bf8ceb 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -774,7 +774,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From d45a6a2a5bc7e944505b5e88b36b0b7625b3690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 21/94] fix: more than 255 local variables terminated the host
 process

---
 pwart/def.h       | 3 +++
 pwart/modparser.c | 1 +
 pwart/util.c      | 5 ++---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f5907e9..3acb0b6 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -30,6 +30,9 @@
 
 #define OPERAND_STACK_COUNT 32
 
+// the local variables of one function must fit in the native stack frame generated by sljit.
+#define MAX_LOCALS_COUNT 4096
+
 
 
 
diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..b1fe682 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -522,6 +522,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 local_count = 0;
                 for (uint32_t l=0; l<local_type_count; l++) {
                     lecount = read_LEB(bytes, &pos, 32);
+                    if(lecount>MAX_LOCALS_COUNT-local_count)return "too many local variables.";
                     local_count += lecount;
                     tidx =  read_LEB(bytes, &pos, 7);
                     (void)tidx; // TODO: use tidx?
diff --git a/pwart/util.c b/pwart/util.c
index a9801cc..b6210eb 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -202,15 +202,14 @@ static void pool_init(struct pool *p,int chunk_size){
     p->chunk_size=chunk_size;
 }
 
-//alloc size must less than chunk_size
+//allocation larger than chunk_size get a chunk for its own.
 static char *pool_alloc(struct pool *p,int size){
-    wa_assert(size<=p->chunk_size,"pool_alloc require size<chunk_size");
     char *r;
     if(p->used+size<=p->chunk_size){
         r=*dynarr_get(p->chunks,char *,p->cur)+p->used;
         p->used+=size;
     }else{
-        r=wa_calloc(p->chunk_size);
+        r=wa_calloc(size>p->chunk_size?size:p->chunk_size);
         *dynarr_push_type(&p->chunks,char *)=r;
         p->cur=p->chunks->len-1;
         p->used=size;
-- 
2.43.0


From b835837376d13a7d5bb300ef4b61be9de9ff8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 22/94] fix: too many pending operands terminated the host
 process

---
 pwart/def.h         | 1 +
 pwart/opgen_utils.c | 6 +++++-
 pwart/wagen.c       | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index 3acb0b6..7ba2237 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -203,6 +203,7 @@ typedef struct ModuleCompiler {
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
     int8_t block_returned; //the block has br/return out.
+    uint8_t stack_overflow; //too many values on the operand stack.
 
     //prepare info, used in compile time
     #if DEBUG_BUILD
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 1bf8ceb..ae59d35 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -312,6 +312,11 @@ static inline size_t get_funcarr_offset(ModuleCompiler *m) {
 // function).
 static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
   StackValue *sv2,*sv;
+  if(m->sp>=OPERAND_STACK_COUNT-2){
+    // reported by pwart_GenCode after current operator.
+    m->stack_overflow=1;
+    m->sp--;
+  }
   sv2 = &m->stack[++m->sp];
   sv2->jit_type = SVT_GENERAL;
   sv2->wasm_type=wasm_type;
@@ -325,7 +330,6 @@ static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
       sv2->frame_offset=stackvalue_GetAlignedOffset(sv2,sv2->frame_offset,NULL);
     }
   }
-  wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
   return sv2;
 }
 
diff --git a/pwart/wagen.c b/pwart/wagen.c
index e67bbc5..5c76bc2 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -343,6 +343,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   block->block_type = 0x00;
   m->eof=0;
   m->block_returned=0;
+  m->stack_overflow=0;
 
   while (!m->eof && m->pc < m->byte_count) {
     opcode = m->bytes[m->pc];
@@ -375,6 +376,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+    if(m->stack_overflow)return "too many values on the operand stack.";
   }
 
   #if DEBUG_BUILD
-- 
2.43.0


From 94bcd7cbbc9ffb693876c1b914595785d51a90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 23/94] fix: a wrong module header terminated the host process

---
 pwart/modparser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index b1fe682..58ca6a3 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -104,10 +104,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     // Check the module
     pos = 0;
+    if(byte_count<8)return "unexpected end of module.";
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_MAGIC, "Wrong module magic\n");
+    if(word != WA_MAGIC)return "Wrong module magic";
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_VERSION, "Wrong module version\n");
+    if(word != WA_VERSION)return "Wrong module version";
 
     // Read the sections
     while (pos < byte_count) {
-- 
2.43.0


From 3cadf81561c893eb2014a26ccc40aa09be77b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 24/94] fix: a truncated module, or functions without a code
 section, read past the module or crashed

---
 pwart/modparser.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 58ca6a3..ff2527f 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -72,6 +72,15 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+// check if there is an whole LEB128 integer at pos.
+static int is_LEB_complete(uint8_t *bytes, uint32_t pos, uint32_t end) {
+    while(pos<end){
+        if((bytes[pos]&0x80)==0)return 1;
+        pos++;
+    }
+    return 0;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
@@ -112,9 +121,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     // Read the sections
     while (pos < byte_count) {
+        if(!is_LEB_complete(bytes, pos+1, byte_count))return "unexpected end of module.";
         uint32_t id = read_LEB(bytes, &pos, 7);
         uint32_t slen = read_LEB(bytes, &pos, 32);
         int start_pos = pos;
+        if(slen > byte_count-pos)return "unexpected end of module.";
         wa_debug("Reading section %d at 0x%x, length %d\n", id, pos, slen);
         switch (id) {
         case 0:
@@ -555,6 +566,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     }
 
+    if(m->context->funcentries==NULL && m->functions->len==m->import_count){
+        //no code section, only imported functions.
+        m->context->funcentries_count=m->import_count;
+        m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+    }
+    if(m->context->funcentries_count!=m->functions->len){
+        return "function and code section have inconsistent lengths.";
+    }
+
     //set functionentry
     m->context->import_funcentries_count=m->import_count;
     for(int i=0;i<m->functions->len;i++){
-- 
2.43.0


From 645bb9ef39a4636646d1c5fbf1b634dde13447bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 25/94] fix: freeing a compiler after a failed compilation, or
 without compiling, crashed or leaked the code already generated

---
 pwart/modparser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index ff2527f..367fcad 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -518,7 +518,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             uint32_t body_count = read_LEB(bytes, &pos, 32);
             //we must allocate space for function entries here, for code generator.
             m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            m->context->import_funcentries_count=m->import_count;
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -554,8 +555,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
                 pos=m->pc;
-                wa_assert(bytes[pos-1] == 0x0b,
-                       "Code section did not end with 0x0b\n");
+                if(bytes[pos-1] != 0x0b)return "Code section did not end with 0x0b";
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
             }
             break;
         default:
@@ -645,7 +646,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
@@ -659,7 +660,7 @@ static int free_runtimectx(RuntimeContext *rc){
 
 static char *free_module(ModuleCompiler *m){
     int i=0;
-    if(!m->compile_succeeded){
+    if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
     if(m->types!=NULL){
-- 
2.43.0


From dda6c2613b5c7253018cc5b6a63d22886b6f0de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 26/94] fix: every compiled function and every module leaked a
 buffer

---
 pwart/modparser.c | 1 -
 pwart/wagen.c     | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 367fcad..753e626 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -152,7 +152,6 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             int count,count2;
             wa_debug("Parsing Type(1) section (length: 0x%x)\n", slen);
             count = read_LEB(bytes, &pos, 32);
-            m->types=NULL;
             dynarr_init(&m->types,sizeof(Type));
             for (uint32_t c=0; c<count; c++) {
                 Type *type = dynarr_push_type(&m->types,Type);
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 5c76bc2..f0fe6ab 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -401,9 +401,6 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   m->function_type = dynarr_get(m->types, Type, func->tidx);
   m->function_locals_type = func->locals_type;
 
-  m->locals = NULL;
-  dynarr_init(&m->locals, sizeof(StackValue));
-
   ReturnIfErr(pwart_PrepareFunc(m));
   m->pc = savepos;
   ReturnIfErr(pwart_GenCode(m));
-- 
2.43.0


From e41ae80b1a7c6b62718962726c819301ea2979f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:35 +0000
Subject: [PATCH 27/94] fix: table.fill and table.copy on table 0 used a
 register that was never loaded

---
 pwart/opgen_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 3b3cc6d..e390c18 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -93,7 +93,7 @@ static void opgen_GenBaseAddressRegForTable(ModuleCompiler *m,uint32_t tabidx){
   a = pwart_GetFreeReg(m, RT_BASE, 1);
   sljit_emit_op2(m->jitc, SLJIT_SHL, a, 0, sv->val.op, sv->val.opw, SLJIT_IMM,
                 sizeof(void *) == 4 ? 2 : 3);
-  if(tabidx==0){
+  if(tabidx==0 && m->table_entries_local>=0){
     sv2 = dynarr_get(m->locals, StackValue, m->table_entries_local);
     sljit_emit_op2(m->jitc, SLJIT_ADD, a, 0, a, 0, sv2->val.op, sv2->val.opw);
   }else{
-- 
2.43.0


From 6621cc97e3a35a1ed619b2d371442f17738337a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 28/94] fix: growing a memory with a maximum overran its
 buffer, growing by huge amounts wrapped around

---
 pwart/extfunc.c   | 28 ++++++++++++++++------------
 pwart/modparser.c |  8 +++-----
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d6ecd1c..0e55d50 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -314,25 +314,29 @@ static void insn_f64converti64u(double *fp){
 }
 // keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
 // (i32 delta, i32 memory_index,ref runtime_context)
+//return previous pages, or 0xffffffff if failed.
+static uint32_t memory_grow(Memory *mem,uint64_t delta){
+  uint32_t prev_pages = mem->pages;
+  if (delta > mem->maximum || delta + prev_pages > mem->maximum) {
+    return 0xffffffff;
+  }
+  if(!mem->fixed && delta>0){
+    uint8_t *bytes = wa_realloc(mem->bytes, (size_t)(prev_pages + delta) * PAGE_SIZE);
+    if(bytes==NULL)return 0xffffffff;
+    mem->bytes=bytes;
+    memset(mem->bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
+  }
+  mem->pages += delta;
+  return prev_pages;
+}
 static void insn_memorygrow(void *fp){
   void *sp=fp;
   uint32_t delta = pwart_rstack_get_i32(&sp);
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
-    sp=fp;
-    pwart_rstack_put_i32(&sp,-1);
-    return;
-  }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
-  }
   sp=fp;
-  pwart_rstack_put_i32(&sp,prev_pages);
+  pwart_rstack_put_i32(&sp,(int)memory_grow(mem,delta));
   return;
 }
 //get pwart version
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 753e626..055698d 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -339,11 +339,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
-                if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
-                }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
-                }
+                //fixed memory never move, so allocate to maximum.
+                memory->bytes = wa_calloc((size_t)(memory->fixed?memory->maximum:memory->initial)*PAGE_SIZE+1);
+                if(memory->bytes==NULL)return "no enough memory";
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
         }
-- 
2.43.0


From 16f5e3527caed1d848415b30eab5bae174d0023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 29/94] fix: memory.fill on a 64-bit memory passed its count in
 the wrong place

---
 pwart/opgen_mem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index e390c18..253a59b 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -451,6 +451,10 @@ static void opgen_GenMemoryFill(ModuleCompiler *m,int midx){
   sv2 = sv=m->stack+m->sp-2;    //n;
   sv = stackvalue_PushStackValueLike(m, sv2);
   sv2->jit_type=SVT_DUMMY;
+  if(sv->wasm_type==WVT_I64){
+    //XXX: we limit to use 32bit count now, which may be change in future
+    opgen_GenNumOp(m,0xa7);//i32.wrap_i64
+  }
 
   opgen_GenRefNull(m,0);
   opgen_GenI32Const(m,0);
-- 
2.43.0


From c8cd4bdd6c16a769375df964b762f886d310af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 30/94] fix: memory.size and memory.grow on a 64-bit memory
 used i32 operands

---
 pwart/def.h       |  2 ++
 pwart/extfunc.c   | 11 +++++++++++
 pwart/modparser.c |  6 ++++++
 pwart/opgen_mem.c | 10 ++++++++++
 4 files changed, 29 insertions(+)

diff --git a/pwart/def.h b/pwart/def.h
index 7ba2237..858ca8c 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -188,6 +188,8 @@ typedef struct ModuleCompiler {
 
     struct dynarr *functions;      //functions, type WasmFunction
 
+    struct dynarr *memories_index64; //if memory is indexed by i64, type uint8_t
+
     struct pwart_symbol_resolver *import_resolver;
 
     uint8_t compile_succeeded;
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 0e55d50..edeffc8 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -339,6 +339,15 @@ static void insn_memorygrow(void *fp){
   pwart_rstack_put_i32(&sp,(int)memory_grow(mem,delta));
   return;
 }
+static void insn_memorygrow64(void *fp){
+  void *sp=fp;
+  uint64_t delta = pwart_rstack_get_i64(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  Memory *mem=*dynarr_get(m->memories,Memory *,index);
+  sp=fp;
+  pwart_rstack_put_i64(&sp,(int32_t)memory_grow(mem,delta));
+}
 //get pwart version
 static void insn_version(uint32_t *fp){
   *fp=pwart_get_version();
@@ -473,6 +482,7 @@ static uint8_t types_f32_f32[] = {WVT_F32, WVT_F32, 0};
 static uint8_t types_f64_f64[] = {WVT_F64, WVT_F64, 0};
 
 static uint8_t types_i32_i32_ref[] = {WVT_I32, WVT_I32, WVT_REF,0};
+static uint8_t types_i64_i32_ref[] = {WVT_I64, WVT_I32, WVT_REF,0};
 
 static uint8_t types_ref_ref_i32[]={WVT_REF, WVT_REF,WVT_I32,0};
 
@@ -508,6 +518,7 @@ static Type func_type_i32_ret_f64 = {.params = types_i32, .results = types_f64};
 static Type func_type_i64_ret_f64 = {.params = types_i64, .results = types_f64};
 
 
+static Type func_type_i64_i32_ref_ret_i64 = {.params = types_i64_i32_ref, .results = types_i64};
 static Type func_type_i32_i32_ref_ret_i32 = {.params = types_i32_i32_ref, .results = types_i32};
 static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types_void};
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 055698d..dfdaca6 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -40,8 +40,10 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
 
 }
 
+// the index type is stored to m->memories_index64
 static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
+  *dynarr_push_type(&m->memories_index64,uint8_t) = (flags & 0x4) != 0;
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
   mem->initial = pages;
   mem->pages = pages;
@@ -108,6 +110,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->tables,sizeof(Table *));
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
+    dynarr_init(&m->memories_index64,sizeof(uint8_t));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -669,6 +672,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->memories_index64!=NULL){
+        dynarr_free(&m->memories_index64);
+    }
     if(m->types_pool.chunks!=NULL){
         pool_free(&m->types_pool);
     }
diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 253a59b..8721bda 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -145,8 +145,18 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
   pwart_EmitStackValueLoadReg(m, sv);
+  if(*dynarr_get(m->memories_index64,uint8_t,index)){
+    opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
+  }
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
+  if(*dynarr_get(m->memories_index64,uint8_t,index)){
+    opgen_GenI32Const(m,index);
+    opgen_GenRefConst(m,m->context);
+    pwart_EmitCallFunc(m, &func_type_i64_i32_ref_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_memorygrow64);
+    return;
+  }
   opgen_GenI32Const(m,index);
   opgen_GenRefConst(m,m->context);
   pwart_EmitCallFunc(m, &func_type_i32_i32_ref_ret_i32, SLJIT_IMM,
-- 
2.43.0


From 172e9912b9ae93079391ebd1b67860f8a27612d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 31/94] fix: load and store offsets of 2 GiB and more were
 sign-extended

---
 pwart/opgen_mem.c   | 4 ++--
 pwart/opgen_utils.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 8721bda..9fbd2a8 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -163,7 +163,7 @@ static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
@@ -246,7 +246,7 @@ static void opgen_GenI64Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset)
   }
 }
 
-static void opgen_GenFloatLoad(ModuleCompiler *m, int32_t opcode, uint32_t offset) {
+static void opgen_GenFloatLoad(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=NULL;
   int a=m->stack[m->sp].val.op;
   m->sp--;
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index ae59d35..f0830fc 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -114,7 +114,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0


From 75cd2715612be27e56ac31df77a1da926bc49b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 32/94] fix: a global initialised from another global of the
 same module read a wild address

---
 pwart/extfunc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index edeffc8..559cfe2 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -557,11 +557,16 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
         StackValue *sv = dynarr_get(m->globals, StackValue, arg);
+        void *addr=(void *)sv->val.opw;
+        if(sv->val.op==SLJIT_IMM){
+          //own global, still marked by the offset. see global section.
+          addr=m->context->own_globals->data+sv->val.opw;
+        }
         if (stackvalue_GetSizeAndAlign(sv, NULL) == 8) {
-          *(uint64_t *)sp = *(uint64_t *)(sv->val.opw);
+          memmove(sp,addr,8);
           sp+=8;
         } else {
-          *(uint32_t *)sp = *(uint32_t *)(sv->val.opw);
+          memmove(sp,addr,4);
           sp+=4;
         }
       } break;
-- 
2.43.0


From a45cfe20654946ca414ed12b0afa21baaef3cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 33/94] fix: a funcref global initialised by ref.func held a
 compiler-internal pointer

---
 pwart/modparser.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index dfdaca6..a1d67a8 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -596,6 +596,21 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         }
     }
 
+    //also own globals initialised by ref.func, they hold a pointer to WasmFunction until now.
+    for(int i1=0;i1<m->globals->len;i1++){
+        StackValue *sv=dynarr_get(m->globals,StackValue,i1);
+        uint8_t *addr=(uint8_t *)sv->val.opw;
+        uint8_t *own=m->context->own_globals->data;
+        if(sv->wasm_type!=WVT_FUNC || addr<own || addr>=own+m->context->own_globals->len)continue;
+        for(int i=0;i<m->functions->len;i++){
+            WasmFunction *fn=dynarr_get(m->functions,WasmFunction,i);
+            if(*(WasmFunction **)addr==fn){
+                *(WasmFunctionEntry *)addr=fn->func_ptr;
+                break;
+            }
+        }
+    }
+
     //also exports.
     for(int i1=0;i1<m->context->exports->len;i1++){
         Export *exp=dynarr_get(m->context->exports,Export,i1);
-- 
2.43.0


From 8a36fc8c23fa07f6d4c7eeef7343670946d198c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 34/94] fix: a deep constant expression overran its evaluation
 stack

---
 pwart/extfunc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 559cfe2..53fb723 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -529,7 +529,10 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   uint64_t stack[16];
   void *sp=&stack;
   int eof=0;
-  while(m->pc<=m->byte_count && !eof){
+  while(m->pc<m->byte_count && !eof){
+    if((uint8_t *)sp+8>(uint8_t *)stack+sizeof(stack)){
+      return "const expr too complex.";
+    }
     opcode=m->bytes[m->pc];
     m->pc++;
     switch (opcode) {
@@ -638,9 +641,12 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
     }
   }
   
-  if(m->bytes[m->pc]!=0xb){
+  if(!eof){
     return "const expr miss end instruction.";
   }
+  if(sp-(void *)stack!=4 && sp-(void *)stack!=8){
+    return "const expr must yield one value.";
+  }
   memcpy(result,&stack,sp-(void *)stack);
   m->pc++;
   return NULL;
-- 
2.43.0


From 2730155ca16f00f95941a11984fbccf3d9d1312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 35/94] fix: ref.null in a constant expression did not consume
 its type

---
 pwart/extfunc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 53fb723..8e87296 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -574,6 +574,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
         }
       } break;
       case 0xd0: //ref.null
+        m->pc++; //heap type
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
-- 
2.43.0


From ea309bab7f5150460551925b6123d9493503fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 36/94] fix: a data segment outside its memory, or with a
 64-bit offset, was written out of bounds

---
 pwart/modparser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index a1d67a8..066cf66 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -483,7 +483,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t s=0; s<seg_count; s++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
-                uint32_t offset;
+                uint64_t offset=0;
                 switch(flags){
                     case 0:  //active
                     midx=0;
@@ -504,8 +504,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
                 // Copy the data to the memory offset
                 uint32_t size = read_LEB(bytes, &pos, 32);
+                if(midx>=m->context->memories->len)return "data segment for an unknown memory.";
                 Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
-                wa_debug("  setting %d bytes of memory at %p + offset %d\n",
+                uint64_t memsize=(uint64_t)memory->pages*PAGE_SIZE;
+                if(offset>memsize || size>memsize-offset)return "data segment is out of bounds.";
+                if(size>start_pos+slen-pos)return "unexpected end of data section.";
+                wa_debug("  setting %d bytes of memory at %p + offset %lld\n",
                     size, memory->bytes, offset);
                 memcpy(memory->bytes+offset, bytes+pos, size);
                 pos += size;
-- 
2.43.0


From e8fb09ffbc76ae637648b32af35e380da2be7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 37/94] fix: element segments in imported tables, or of the
 passive and expression forms, were mangled

---
 pwart/modparser.c | 106 +++++++++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 54 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 066cf66..59cc243 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -83,10 +83,54 @@ static int is_LEB_complete(uint8_t *bytes, uint32_t pos, uint32_t end) {
     return 0;
 }
 
+// write element segments into the tables, 'pos' is the start of the element section.
+// called after code generation, when all function entries are known.
+static char *load_element_section(ModuleCompiler *m,uint32_t pos) {
+    uint8_t *bytes=m->bytes;
+    uint32_t element_count = read_LEB(bytes, &pos, 32);
+    for(uint32_t c=0; c<element_count; c++) {
+        uint32_t flags = read_LEB(bytes, &pos, 32);
+        uint32_t index=0;
+        uint64_t offset=0;
+        int active=!(flags&1);
+        Table *dtab=NULL;
+        if(flags>7)return "Illegal segment flags.";
+        if(active){
+            if(flags&2)index=read_LEB(bytes, &pos, 32);
+            // Run the init_expr to get offset
+            m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
+            if(index>=m->context->tables->len)return "element segment for an unknown table.";
+            dtab=*dynarr_get(m->context->tables,Table *,index);
+        }
+        if(flags&3)pos++; //element kind or type, ignored.
+        uint32_t num_elem = read_LEB(bytes, &pos, 32);
+        if(active && (offset>dtab->size || num_elem>dtab->size-offset))return "element segment is out of bounds.";
+        for (uint32_t n=0; n<num_elem; n++) {
+            void *entry=NULL;
+            if(flags&4){
+                m->pc=pos;ReturnIfErr(waexpr_run_const(m,&entry));pos=m->pc;
+                for(int i=0;i<m->functions->len;i++){
+                    WasmFunction *fn=dynarr_get(m->functions,WasmFunction,i);
+                    if(entry==(void *)fn){
+                        entry=fn->func_ptr;
+                        break;
+                    }
+                }
+            }else{
+                uint32_t fidx=read_LEB(bytes, &pos, 32);
+                if(fidx>=m->functions->len)return "element segment for an unknown function.";
+                entry=dynarr_get(m->functions,WasmFunction,fidx)->func_ptr;
+            }
+            if(active)dtab->entries[offset+n]=entry;
+        }
+    }
+    return NULL;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
-    uint32_t  pos = 0, word;
+    uint32_t  pos = 0, word, elem_pos = 0;
     m->compile_succeeded=0;
 
     // Allocate the module
@@ -437,43 +481,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             break;
         case 9:
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
-            uint32_t element_count = read_LEB(bytes, &pos, 32);
-            for(uint32_t c=0; c<element_count; c++) {
-                uint32_t flags = read_LEB(bytes, &pos, 32);
-                uint32_t index=0;
-                uint32_t offset;
-                void *elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
-                    // Run the init_expr to get offset
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                }
-                
-                uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
-                for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
-                }
-            }
+            //function entries are unknown until all code is generated, so process it later.
+            elem_pos=start_pos;
             pos = start_pos+slen;
             break;
         // 9 and 11 are similar so keep them together, 10 is below 11
@@ -585,22 +594,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
-    wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
-        }
-    }
-
-    //also own globals initialised by ref.func, they hold a pointer to WasmFunction until now.
+    //update own globals initialised by ref.func, they hold a pointer to WasmFunction until now.
     for(int i1=0;i1<m->globals->len;i1++){
         StackValue *sv=dynarr_get(m->globals,StackValue,i1);
         uint8_t *addr=(uint8_t *)sv->val.opw;
@@ -615,6 +609,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         }
     }
 
+    if(elem_pos!=0){
+        ReturnIfErr(load_element_section(m,elem_pos));
+    }
+
     //also exports.
     for(int i1=0;i1<m->context->exports->len;i1++){
         Export *exp=dynarr_get(m->context->exports,Export,i1);
-- 
2.43.0


From 5ea687b8f7de00b6b6f486c98e93195491f0df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 38/94] fix: the opcode after the 0xfc prefix was read as one
 byte instead of an integer

---
 pwart/opgen_misc.c | 3 +--
 pwart/wagen.c      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 7edc3f4..4529b67 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -158,8 +158,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
     opgen_GenRefFunc(m, fidx);
     break;
   case 0xfc: // misc prefix
-    opcode2=m->bytes[m->pc];
-    m->pc++;
+    opcode2=read_LEB(m->bytes, &m->pc, 32);
     ReturnIfErr(opgen_GenMiscOp_FC(m,opcode2));
     break;
   default:
diff --git a/pwart/wagen.c b/pwart/wagen.c
index f0fe6ab..1646304 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -90,8 +90,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0xfc: //misc op.
   {
-    int opc2=bytes[*pos];
-    *pos = *pos + 1;
+    int opc2=read_LEB(bytes,pos,32);
     switch(opc2){
       case 0xa:
       case 0xe:
-- 
2.43.0


From e6ae76a11ee93bfaa5c09d716a77906ecf778db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 39/94] fix: memory and table indices of bulk operations were
 read as signed

---
 pwart/opgen_misc.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 4529b67..9cdfa5d 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -100,24 +100,24 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     opgen_GenNumOp(m,0xb1);
     break; 
     case 0x0a: //memory.copy
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
-    b=read_LEB_signed(m->bytes,&m->pc,32); //source memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
+    b=read_LEB(m->bytes,&m->pc,32); //source memory index
     opgen_GenMemoryCopy(m,a,b);
     break;
     case 0x0b: //memory.fill
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
     opgen_GenMemoryFill(m,a);
     break;
     case 0x0e: //table.copy
     {
-      int32_t dtab=read_LEB_signed(m->bytes,&m->pc,32); //destination table index
-      int32_t stab=read_LEB_signed(m->bytes,&m->pc,32); //source table index
+      int32_t dtab=read_LEB(m->bytes,&m->pc,32); //destination table index
+      int32_t stab=read_LEB(m->bytes,&m->pc,32); //source table index
       opgen_GenTableCopy(m,dtab,stab);
     }
     break;
     case 0x0f: //table.grow
     //table are not allowed to grow
-    read_LEB_signed(m->bytes,&m->pc,32); //table index
+    read_LEB(m->bytes,&m->pc,32); //table index
     m->sp-=2;
     sv=stackvalue_Push(m,WVT_I32);
     sv->val.op=SLJIT_IMM;
@@ -125,13 +125,13 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     break;
     case 0x10: //table.size
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableSize(m,tabidx);
     }
     break;
     case 0x11:  //table.fill
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableFill(m,tabidx);
     }
     break;
-- 
2.43.0


From 692bbd3f7dfc5249d571ec437a6a1a02ea6ea947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 40/94] fix: custom sections with a long name were rejected and
 a short dylink section was read past its end

---
 pwart/modparser.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 59cc243..372c674 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -177,22 +177,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         switch (id) {
         case 0:
             wa_debug("Parsing Custom(0) section (length: 0x%x)\n", slen);
-            uint32_t end_pos = pos+slen;
-            char *name = m->import_name_buffer;
-            if(read_string(bytes, &pos, 512,name)>500){
-                return "section name too long,must less than 500.";
-            }
-            wa_debug("  Section name '%s'\n", name);
-            if (strncmp(name, "dylink", 7) == 0) {
-                // https://github.com/WebAssembly/tool-conventions/blob/master/DynamicLinking.md
-                // TODO: make use of these
-                uint32_t memorysize = read_LEB(bytes, &pos, 32);
-                uint32_t tablesize = read_LEB(bytes, &pos, 32);
-                (void)memorysize; (void)tablesize;
-            } else {
-                wa_debug("Ignoring unknown custom section '%s'\n", name);
-            }
-            pos = end_pos;
+            //custom sections have no meaning here and may contain anything.
+            // https://github.com/WebAssembly/tool-conventions/blob/master/DynamicLinking.md
+            // TODO: make use of "dylink"
+            pos += slen;
             break;
         case 1:
         {
-- 
2.43.0


From a545e077ce2b6d3d6ea7cd4cfb02d6bc7d60689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 41/94] fix: builtin symbols are only bound to imports of their
 own kind

---
 pwart/modparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 372c674..dafe522 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -266,7 +266,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     int arrlen=0,i1=0;
                     struct pwart_named_symbol *builtin=pwart_get_builtin_symbols(&arrlen);
                     for(i1=0;i1<arrlen;i1++){
-                        if(!strcmp(builtin[i1].name,import_field)){
+                        if(builtin[i1].kind==external_kind && !strcmp(builtin[i1].name,import_field)){
                             switch(external_kind){
                                 case PWART_KIND_FUNCTION:
                                 val=builtin[i1].val.fn;
-- 
2.43.0


From 21b88c3de29dfe2132c69f8bf5a99b76545b08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 42/94] fix: the compiler is freed when a namespace module
 fails to load

---
 pwart/namespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..72e5174 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -150,6 +150,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From dd9c42e981d054e4082b2f6a3fd2e75d825f5433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 43/94] fix: namespace delete frees its module list

---
 pwart/namespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 72e5174..28b966e 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -78,6 +78,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
+    dynarr_free(&n->mods);
     wa_free(n);
     return NULL;
 }
-- 
2.43.0


From d2d6a29b8167e048924e05fb90fd1b8b6614bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:44 +0000
Subject: [PATCH 44/94] fix: sections that end early are reported and nothing
 outside the module is read

---
 pwart/modparser.c | 79 +++++++++++++++++++++++++++++++++++------------
 pwart/wagen.c     | 12 +++----
 2 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index dafe522..8054c0c 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -7,10 +7,13 @@
 // Reads a string from the bytes array at pos that starts with a LEB length
 // the length of string(include tailing 0) must less than maxlen, or the function read nothing.
 // return the real length of the string(include tailing 0), no matter with 'maxlen'.
-static uint32_t read_string(uint8_t *bytes, uint32_t *pos, uint32_t maxlen,char *buf) {
+static uint32_t read_string(uint8_t *bytes, uint32_t *pos, uint32_t end, uint32_t maxlen,char *buf) {
     uint32_t savedpos=*pos;
-    int32_t str_len = read_LEB(bytes, pos, 32);
-    uint32_t copy_len=str_len;
+    uint32_t str_len = read_LEB(bytes, pos, 32);
+    if(*pos>end || str_len>end-*pos){
+        *pos=savedpos;
+        return 0x7fffffff;
+    }
     if(str_len+1>maxlen){
         *pos=savedpos;
         return str_len+1;
@@ -83,12 +86,13 @@ static int is_LEB_complete(uint8_t *bytes, uint32_t pos, uint32_t end) {
     return 0;
 }
 
-// write element segments into the tables, 'pos' is the start of the element section.
+// write element segments into the tables, 'pos' is the start of the element section, 'end' is the end of it.
 // called after code generation, when all function entries are known.
-static char *load_element_section(ModuleCompiler *m,uint32_t pos) {
+static char *load_element_section(ModuleCompiler *m,uint32_t pos,uint32_t end) {
     uint8_t *bytes=m->bytes;
     uint32_t element_count = read_LEB(bytes, &pos, 32);
     for(uint32_t c=0; c<element_count; c++) {
+        if(pos>=end)return "unexpected end of section.";
         uint32_t flags = read_LEB(bytes, &pos, 32);
         uint32_t index=0;
         uint64_t offset=0;
@@ -107,6 +111,7 @@ static char *load_element_section(ModuleCompiler *m,uint32_t pos) {
         if(active && (offset>dtab->size || num_elem>dtab->size-offset))return "element segment is out of bounds.";
         for (uint32_t n=0; n<num_elem; n++) {
             void *entry=NULL;
+            if(pos>=end)return "unexpected end of section.";
             if(flags&4){
                 m->pc=pos;ReturnIfErr(waexpr_run_const(m,&entry));pos=m->pc;
                 for(int i=0;i<m->functions->len;i++){
@@ -124,13 +129,17 @@ static char *load_element_section(ModuleCompiler *m,uint32_t pos) {
             if(active)dtab->entries[offset+n]=entry;
         }
     }
+    if(pos!=end)return "section size mismatch.";
     return NULL;
 }
 
+// count of zero bytes behind the module bytes. must not less than the longest value.
+#define MODULE_BYTES_PADDING 32
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
-    uint32_t  pos = 0, word, elem_pos = 0;
+    uint32_t  pos = 0, end, word, elem_pos = 0, elem_end = 0;
     m->compile_succeeded=0;
 
     // Allocate the module
@@ -145,7 +154,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     pool_init(&m->types_pool,256);
     dynarr_init(&m->globals,sizeof(StackValue));
 
-    m->bytes = bytes;
+    // work on a copy which is followed by some zero bytes, so that an incomplete value at the end of
+    // the module never makes the compiler read outside of it.
+    m->bytes = wa_calloc((size_t)byte_count+MODULE_BYTES_PADDING);
+    if(m->bytes==NULL)return "no enough memory";
+    memcpy(m->bytes,bytes,byte_count);
+    bytes = m->bytes;
     m->byte_count = byte_count;
     m->context=wa_calloc(sizeof(RuntimeContext));
     pool_init(&m->context->strings_pool,260);
@@ -172,7 +186,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         uint32_t id = read_LEB(bytes, &pos, 7);
         uint32_t slen = read_LEB(bytes, &pos, 32);
         int start_pos = pos;
-        if(slen > byte_count-pos)return "unexpected end of module.";
+        if(pos > byte_count || slen > byte_count-pos)return "unexpected end of module.";
+        end = pos+slen;
         wa_debug("Reading section %d at 0x%x, length %d\n", id, pos, slen);
         switch (id) {
         case 0:
@@ -189,20 +204,23 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             count = read_LEB(bytes, &pos, 32);
             dynarr_init(&m->types,sizeof(Type));
             for (uint32_t c=0; c<count; c++) {
+                if(pos>=end)return "unexpected end of section.";
                 Type *type = dynarr_push_type(&m->types,Type);
                 type->form = read_LEB(bytes, &pos, 7);
                 count2 = read_LEB(bytes, &pos, 32);
-                if(count2>255)return "type group too long.(should less than 256)";
+                if(count2<0 || count2>255)return "type group too long.(should less than 256)";
                 type->params=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t p=0; p<count2; p++) {
+                    if(pos>=end)return "unexpected end of section.";
                     type->params[p]=read_LEB(bytes, &pos, 32);
                 }
                 type->params[count2]=0;
 
                 count2 = read_LEB(bytes, &pos, 32);
-                if(count2>255)return "type group too long.(should less than 256)";
+                if(count2<0 || count2>255)return "type group too long.(should less than 256)";
                 type->results=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t r=0; r<count2; r++) {
+                    if(pos>=end)return "unexpected end of section.";
                     type->results[r] = read_LEB(bytes, &pos, 32);
                 }
                 type->results[count2]=0;
@@ -220,13 +238,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 void *val;
                 union{Table tab;Memory mem;} info;
                 uint32_t module_len, field_len;
+                if(pos>=end)return "unexpected end of section.";
                 char *import_module,*import_field;
                 import_module=m->import_name_buffer;
-                module_len = read_string(bytes, &pos, 512,import_module);
+                module_len = read_string(bytes, &pos, end, 512,import_module);
                 if(module_len>500){return "import name too long, module+field should less than 500 byte.";};
                 import_field=import_module+module_len;
-                field_len  = read_string(bytes, &pos, 512-module_len,import_field);
+                field_len  = read_string(bytes, &pos, end, 512-module_len,import_field);
                 if(module_len+field_len>500){return "import name too long, module+field should less than 500 byte.";};
+                if(pos>=end)return "unexpected end of section.";
                 uint32_t external_kind = bytes[pos++];
 
                 wa_debug("  import: %d/%d, external_kind: %d, %s.%s\n",
@@ -250,6 +270,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     (void)mutability; break;
                 }
 
+                if(pos>end)return "unexpected end of section.";
                 
                 val=NULL;
                 if(m->import_resolver!=NULL){
@@ -338,6 +359,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Function(3) section (length: 0x%x)\n", slen);
 
             for (uint32_t f=0; f<localFuncCount; f++) {
+                if(pos>=end)return "unexpected end of section.";
                 wasmfunc=dynarr_push_type(&m->functions,WasmFunction);
                 uint32_t tidx = read_LEB(bytes, &pos, 32);
                 wasmfunc->fidx = f;
@@ -350,10 +372,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         {
             wa_debug("Parsing Table(4) section\n");
             uint32_t table_count = read_LEB(bytes, &pos, 32);
+            if(table_count>slen)return "unexpected end of section.";
             m->context->own_tables_count=table_count;
             m->context->own_tables=wa_calloc(sizeof(Table)*table_count);
             wa_debug("  table count: 0x%x\n", table_count);
             for(int i=0;i<table_count;i++){
+                if(pos>=end)return "unexpected end of section.";
                 Table *table=m->context->own_tables+i;
                 wa_debug("create new table at %p\n",table);
                 parse_table_type(m, &pos,table);
@@ -367,10 +391,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         {
             wa_debug("Parsing Memory(5) section\n");
             uint32_t memory_count = read_LEB(bytes, &pos, 32);
+            if(memory_count>slen)return "unexpected end of section.";
             m->context->own_memories_count=memory_count;
             m->context->own_memories=wa_calloc(sizeof(Memory)*memory_count);
             wa_debug("  memory count: 0x%x\n", memory_count);
             for(int i=0;i<memory_count;i++){
+                if(pos>=end)return "unexpected end of section.";
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
@@ -386,6 +412,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Global(6) section\n");
             uint32_t global_count = read_LEB(bytes, &pos, 32);
             for (uint32_t g=0; g<global_count; g++) {
+                if(pos>=end)return "unexpected end of section.";
                 StackValue *sv;
                 // Same allocation Import of global above
                 uint8_t type = read_LEB(bytes, &pos, 7);
@@ -426,18 +453,19 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     sv->val.op=SLJIT_IMM|SLJIT_MEM;
                 }
             }
-            pos = start_pos+slen;
             break;
         case 7:
             wa_debug("Parsing Export(7) section (length: 0x%x)\n", slen);
             uint32_t export_count = read_LEB(bytes, &pos, 32);
             for (uint32_t e=0; e<export_count; e++) {
-                uint32_t strlen=read_string(bytes, &pos, 0,NULL);
+                if(pos>=end)return "unexpected end of section.";
+                uint32_t strlen=read_string(bytes, &pos, end, 0,NULL);
                 char *name;
                 if(strlen>256){return "export name too long, should less than 256 byte.";}
                 name=pool_alloc(&m->context->strings_pool,strlen);
-                read_string(bytes, &pos, 257,name);
+                read_string(bytes, &pos, end, 257,name);
 
+                if(pos>=end)return "unexpected end of section.";
                 uint32_t external_kind = bytes[pos++];
                 uint32_t index = read_LEB(bytes, &pos, 32);
                 uint32_t eidx = m->context->exports->len;
@@ -471,13 +499,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
             //function entries are unknown until all code is generated, so process it later.
             elem_pos=start_pos;
-            pos = start_pos+slen;
+            elem_end=end;
+            pos = end;
             break;
         // 9 and 11 are similar so keep them together, 10 is below 11
         case 11:
             wa_debug("Parsing Data(11) section (length: 0x%x)\n", slen);
             uint32_t seg_count = read_LEB(bytes, &pos, 32);
             for (uint32_t s=0; s<seg_count; s++) {
+                if(pos>=end)return "unexpected end of section.";
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
                 uint64_t offset=0;
@@ -505,7 +535,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
                 uint64_t memsize=(uint64_t)memory->pages*PAGE_SIZE;
                 if(offset>memsize || size>memsize-offset)return "data segment is out of bounds.";
-                if(size>start_pos+slen-pos)return "unexpected end of data section.";
+                if(pos>end || size>end-pos)return "unexpected end of data section.";
                 wa_debug("  setting %d bytes of memory at %p + offset %lld\n",
                     size, memory->bytes, offset);
                 memcpy(memory->bytes+offset, bytes+pos, size);
@@ -517,15 +547,19 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         case 10:
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
             uint32_t body_count = read_LEB(bytes, &pos, 32);
+            if(m->import_count+(uint64_t)body_count!=m->functions->len)return "function and code section have inconsistent lengths.";
             //we must allocate space for function entries here, for code generator.
             m->context->funcentries_count=m->import_count+body_count;
             m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
             m->context->import_funcentries_count=m->import_count;
             for (uint32_t b=0; b<body_count; b++) {
+                if(pos>=end)return "unexpected end of section.";
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
                 uint32_t body_size = read_LEB(bytes, &pos, 32);
                 uint32_t payload_start = pos;
+                if(pos>end || body_size>end-pos)return "unexpected end of section.";
+                uint32_t body_end = pos+body_size;
                 uint32_t local_count=0;
                 uint32_t local_type_count= read_LEB(bytes, &pos, 32);
                 uint32_t save_pos, tidx, lidx, lecount;
@@ -535,6 +569,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 save_pos = pos;
                 local_count = 0;
                 for (uint32_t l=0; l<local_type_count; l++) {
+                    if(pos>=body_end)return "unexpected end of section.";
                     lecount = read_LEB(bytes, &pos, 32);
                     if(lecount>MAX_LOCALS_COUNT-local_count)return "too many local variables.";
                     local_count += lecount;
@@ -554,9 +589,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     }
                 }
                 m->pc=pos;
+                m->byte_count=body_end;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                m->byte_count=byte_count;
                 pos=m->pc;
-                if(bytes[pos-1] != 0x0b)return "Code section did not end with 0x0b";
+                if(pos!=body_end || bytes[pos-1] != 0x0b)return "Code section did not end with 0x0b";
                 m->context->funcentries[m->import_count+b]=function->func_ptr;
             }
             break;
@@ -565,6 +602,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             pos += slen;
             break;
         }
+        if(pos!=end)return "section size mismatch.";
 
     }
 
@@ -598,7 +636,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     }
 
     if(elem_pos!=0){
-        ReturnIfErr(load_element_section(m,elem_pos));
+        ReturnIfErr(load_element_section(m,elem_pos,elem_end));
     }
 
     //also exports.
@@ -703,6 +741,9 @@ static char *free_module(ModuleCompiler *m){
         sljit_free_compiler(m->jitc);
         m->jitc=NULL;
     }
+    if(m->bytes!=NULL){
+        wa_free(m->bytes);
+    }
     wa_free(m);
     return 0;
 }
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 1646304..d8a8e62 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -11,7 +11,7 @@
 #include "opgen_misc.c"
 
 
-static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
+static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos, uint32_t end) {
   uint32_t count, opcode = bytes[*pos];
   *pos = *pos + 1;
   switch (opcode) {
@@ -51,7 +51,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x1c: // select t
     count = read_LEB(bytes, pos, 32);
-    for (uint32_t i = 0; i < count; i++) {
+    for (uint32_t i = 0; i < count && *pos < end; i++) {
       read_LEB(bytes, pos, 32);
     }
     break;
@@ -83,7 +83,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
   // br_table
   case 0x0e:                          // br_table
     count = read_LEB(bytes, pos, 32); // target count
-    for (uint32_t i = 0; i < count; i++) {
+    for (uint32_t i = 0; i < count && *pos < end; i++) {
       read_LEB(bytes, pos, 32);
     }
     read_LEB(bytes, pos, 32); // default target
@@ -261,11 +261,11 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     default:
       m->pc--;
-      wasm_SkipImmediates(m->bytes, &m->pc);
+      wasm_SkipImmediates(m->bytes, &m->pc, m->byte_count);
       break;
     }
   }
-  if(m->bytes[m->pc - 1] != 0xb){return "Function not end with 0x0b, unsupported feature may used.";}
+  if(!eof || m->pc > m->byte_count){return "Function not end with 0x0b, unsupported feature may used.";}
   m->locals_need_zero=NULL;
   if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
     dynarr_init(&m->locals_need_zero,sizeof(int16_t));
@@ -307,7 +307,7 @@ static void pwart_SkipDeadCode(ModuleCompiler *m) {
       depth--;
       break;
     }
-    wasm_SkipImmediates(m->bytes, &m->pc);
+    wasm_SkipImmediates(m->bytes, &m->pc, m->byte_count);
 #if DEBUG_BUILD
     m->insnCnt--;
 #endif
-- 
2.43.0


From 2681192c67a4c319454dc7d90d8000ed132bfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 45/94] fix: unsupported instructions in unreachable code are
 reported

---
 pwart/wagen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index d8a8e62..da62982 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -110,6 +110,19 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos, uint32_t end) {
 }
 
 
+// check if the instruction at pos can be compiled.
+static int wasm_IsSupportedInsn(uint8_t *bytes, uint32_t pos) {
+  uint32_t opcode = bytes[pos];
+  pos++;
+  if (opcode == 0xfc) {
+    uint32_t opc2 = read_LEB(bytes, &pos, 32);
+    return opc2 <= 7 || opc2 == 0x0a || opc2 == 0x0b || (opc2 >= 0x0e && opc2 <= 0x11);
+  }
+  return opcode <= 0x05 || (opcode >= 0x0b && opcode <= 0x13) || (opcode >= 0x1a && opcode <= 0x1c) ||
+         (opcode >= 0x20 && opcode <= 0x26) || (opcode >= 0x28 && opcode <= 0xc4) ||
+         (opcode >= 0xd0 && opcode <= 0xd2);
+}
+
 
 static char *pwart_PrepareFunc(ModuleCompiler *m) {
   uint8_t *bytes = m->bytes;
@@ -261,6 +274,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     default:
       m->pc--;
+      if(!wasm_IsSupportedInsn(bytes, m->pc))return "unrecognized opcode";
       wasm_SkipImmediates(m->bytes, &m->pc, m->byte_count);
       break;
     }
-- 
2.43.0


From ba481888528d9605d316a45f11d87b7cff4fdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 46/94] fix: unsupported value types and limits are reported

---
 pwart/modparser.c   | 26 +++++++++++++++++++-------
 pwart/opgen_ctl.c   |  4 +++-
 pwart/opgen_misc.c  |  1 +
 pwart/opgen_utils.c |  4 ++++
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 8054c0c..734d5bb 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -25,10 +25,12 @@ static uint32_t read_string(uint8_t *bytes, uint32_t *pos, uint32_t end, uint32_
 }
 
 
-static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
+static char *parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
   uint32_t flags,tsize;
   table->elem_type = read_LEB(m->bytes, pos, 7);
+  if(table->elem_type != WVT_FUNC && table->elem_type != WVT_REF)return "unsupported value type.";
   flags = read_LEB(m->bytes, pos, 32);
+  if(flags > 1)return "unsupported table type.";
   tsize = read_LEB(m->bytes, pos, 32); // Initial size
   table->initial = tsize;
   table->size = tsize;
@@ -40,12 +42,13 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
     table->maximum = tsize;
   }
   wa_debug("  table size: %d\n", tsize);
-
+  return NULL;
 }
 
 // the index type is stored to m->memories_index64
-static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
+static char *parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
+  if(flags > 7)return "unsupported memory type.";
   *dynarr_push_type(&m->memories_index64,uint8_t) = (flags & 0x4) != 0;
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
   mem->initial = pages;
@@ -59,6 +62,7 @@ static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
     mem->maximum = 32768;
     mem->fixed=0;
   }
+  return NULL;
 }
 
 static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind) {
@@ -207,12 +211,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 if(pos>=end)return "unexpected end of section.";
                 Type *type = dynarr_push_type(&m->types,Type);
                 type->form = read_LEB(bytes, &pos, 7);
+                if(type->form!=0x60)return "unsupported type form.";
                 count2 = read_LEB(bytes, &pos, 32);
                 if(count2<0 || count2>255)return "type group too long.(should less than 256)";
                 type->params=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t p=0; p<count2; p++) {
                     if(pos>=end)return "unexpected end of section.";
                     type->params[p]=read_LEB(bytes, &pos, 32);
+                    if(!is_value_type(type->params[p]))return "unsupported value type.";
                 }
                 type->params[count2]=0;
 
@@ -222,6 +228,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 for (uint32_t r=0; r<count2; r++) {
                     if(pos>=end)return "unexpected end of section.";
                     type->results[r] = read_LEB(bytes, &pos, 32);
+                    if(!is_value_type(type->results[r]))return "unsupported value type.";
                 }
                 type->results[count2]=0;
                 wa_debug("type %d:\n",c);
@@ -260,14 +267,17 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_FUNCTION:
                     type_index = read_LEB(bytes, &pos, 32); break;
                 case PWART_KIND_TABLE:
-                  parse_table_type(m, &pos,&info.tab); break;
+                  ReturnIfErr(parse_table_type(m, &pos,&info.tab)); break;
                 case PWART_KIND_MEMORY:
-                    parse_memory_type(m, &pos,&info.mem); break;
+                    ReturnIfErr(parse_memory_type(m, &pos,&info.mem)); break;
                 case PWART_KIND_GLOBAL:
                     content_type = read_LEB(bytes, &pos, 7);
+                    if(!is_value_type(content_type))return "unsupported value type.";
                     // TODO: use mutability
                     mutability = read_LEB(bytes, &pos, 1);
                     (void)mutability; break;
+                default:
+                    return "unsupported import kind.";
                 }
 
                 if(pos>end)return "unexpected end of section.";
@@ -380,7 +390,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 if(pos>=end)return "unexpected end of section.";
                 Table *table=m->context->own_tables+i;
                 wa_debug("create new table at %p\n",table);
-                parse_table_type(m, &pos,table);
+                ReturnIfErr(parse_table_type(m, &pos,table));
                 table->entries = wa_calloc(table->size*sizeof(void *));
                 *dynarr_push_type(&m->context->tables,Table *)=table;
             }
@@ -398,7 +408,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for(int i=0;i<memory_count;i++){
                 if(pos>=end)return "unexpected end of section.";
                 Memory *memory=m->context->own_memories+i;
-                parse_memory_type(m, &pos,memory);
+                ReturnIfErr(parse_memory_type(m, &pos,memory));
                 //XXX: custom memory creator?
                 //fixed memory never move, so allocate to maximum.
                 memory->bytes = wa_calloc((size_t)(memory->fixed?memory->maximum:memory->initial)*PAGE_SIZE+1);
@@ -416,6 +426,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 StackValue *sv;
                 // Same allocation Import of global above
                 uint8_t type = read_LEB(bytes, &pos, 7);
+                if(!is_value_type(type))return "unsupported value type.";
                 // TODO: use mutability
                 uint8_t mutability = read_LEB(bytes, &pos, 1);
                 (void)mutability;
@@ -583,6 +594,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 for (uint32_t l=0; l<local_type_count; l++) {
                     lecount = read_LEB(bytes, &pos, 32);
                     vt = read_LEB(bytes, &pos, 7);
+                    if(!is_value_type(vt))return "unsupported value type.";
                     for (uint32_t l=0; l<lecount; l++) {
                         function->locals_type[lidx]=vt;
                         lidx++;
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 7d26f73..a166a42 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -374,6 +374,7 @@ static char *opgen_ParseBlockType(ModuleCompiler *m,int *resultType){
     m->pc++;
   }else if(((*(m->bytes+m->pc))&0xC0)==0x40){
     *resultType=*(m->bytes+m->pc);
+    if(!is_value_type(*resultType))return "unsupported value type.";
     m->pc++;
   }else{
     return "Not support type index for block type";
@@ -450,7 +451,8 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case WASMOPC_select_t:                     // select t
     count = read_LEB(bytes, &m->pc, 32);
     for (int32_t i = 0; i < count; i++) {
-      read_LEB(bytes, &m->pc, 32); // value type
+      tidx=read_LEB(bytes, &m->pc, 32); // value type
+      if(!is_value_type(tidx))return "unsupported value type.";
     }
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 9cdfa5d..30f4580 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -148,6 +148,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
   switch (opcode) {
   case 0xd0:                            // ref.null
     tidx = read_LEB_signed(bytes, &m->pc, 32); // ref type
+    if(tidx!=WVT_FUNC-0x80 && tidx!=WVT_REF-0x80)return "unsupported value type.";
     opgen_GenRefNull(m, tidx);
     break;
   case 0xd1: // ref.isnull
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index f0830fc..d0de2b5 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -26,6 +26,10 @@ static uint32_t wasmtype_GetSizeAndAlign(int wasm_type,uint32_t *align){
     return sizeof(void *);
   }
 }
+// supported value types.
+static int is_value_type(uint32_t type) {
+  return (type >= WVT_F64 && type <= WVT_I32) || type == WVT_FUNC || type == WVT_REF;
+}
 static int stackvalue_IsFloat(StackValue *sv) {
   return sv->wasm_type == WVT_F32 || sv->wasm_type == WVT_F64;
 }
-- 
2.43.0


From 03bee79f817405889dae5fba9e68a0bbbe683bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 47/94] fix: exports of unknown items or kinds are reported

---
 pwart/modparser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 734d5bb..a3d9d76 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -486,17 +486,23 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     exp->export_name=name;
                     switch (external_kind) {
                     case PWART_KIND_FUNCTION:
+                        if(index>=m->functions->len)return "export of an unknown function.";
                         exp->value = dynarr_get(m->functions,WasmFunction,index);
                         break;
                     case PWART_KIND_TABLE:
+                        if(index>=m->context->tables->len)return "export of an unknown table.";
                         exp->value = *dynarr_get(m->context->tables,Table *,index);
                         break;
                     case PWART_KIND_MEMORY:
+                        if(index>=m->context->memories->len)return "export of an unknown memory.";
                         exp->value = *dynarr_get(m->context->memories,Memory *,index);
                         break;
                     case PWART_KIND_GLOBAL:
+                        if(index>=m->globals->len)return "export of an unknown global.";
                         exp->value = (void *)dynarr_get(m->globals,StackValue,index)->val.opw;
                         break;
+                    default:
+                        return "unsupported export kind.";
                     }
                 }
                 wa_debug("  export: %s (0x%x)\n", name, index);
-- 
2.43.0


From d0db646b59b29e3468c976f01a23ec54275e7085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 48/94] fix: a table that cannot be allocated is reported

---
 pwart/modparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index a3d9d76..deb117c 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -392,6 +392,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 wa_debug("create new table at %p\n",table);
                 ReturnIfErr(parse_table_type(m, &pos,table));
                 table->entries = wa_calloc(table->size*sizeof(void *));
+                if(table->entries==NULL && table->size>0)return "no enough memory";
                 *dynarr_push_type(&m->context->tables,Table *)=table;
             }
         }
-- 
2.43.0


From 2edb04af38fe1cd906cdf38bc038227fc5704973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 49/94] fix: a namespace keeps its own copy of module names

---
 pwart/namespace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 28b966e..66eea23 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -74,6 +74,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 ReturnIfErr(pwart_free_module_state(m->val.wasm));
                 break;
         }
+        wa_free((void *)m->name);
     }
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
@@ -117,13 +118,17 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
+    const char *name;
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
+        name=m->name;
     }else{
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
+        name=strcpy(wa_malloc(strlen(mod->name)+1),mod->name);
     }
     memmove(m,mod,sizeof(struct pwart_named_module));
+    m->name=name;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
-- 
2.43.0


From ad4a9429f93e6327ab01a82360430d61a8dd2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 50/94] fix: a module removed from a namespace can no longer be
 found

---
 include/pwart.h   |  2 +-
 pwart/namespace.c | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/pwart.h b/include/pwart.h
index 4a68f9d..70570c2 100644
--- a/include/pwart.h
+++ b/include/pwart.h
@@ -335,7 +335,7 @@ struct pwart_host_module{
 #define PWART_MODULE_TYPE_HOST_MODULE 1
 #define PWART_MODULE_TYPE_WASM_MODULE 2
 /* Indicate module has been free. */
-#define PWART_MODULE_TYPE_NULL 0;
+#define PWART_MODULE_TYPE_NULL 0
 
 
 struct pwart_named_module{
diff --git a/pwart/namespace.c b/pwart/namespace.c
index 66eea23..f1c2644 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -84,8 +84,8 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
     return NULL;
 }
 
-extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns,const char *name){
-    Namespace *n=(Namespace *)ns;
+//find the entry for name, including entry whose module has been removed.
+static struct pwart_named_module *namespace_FindEntry(Namespace *n,const char *name){
     int i=0;
     for(i=0;i<n->mods->len;i++){
         struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
@@ -96,6 +96,11 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
     return NULL;
 }
 
+extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns,const char *name){
+    struct pwart_named_module *m=namespace_FindEntry((Namespace *)ns,name);
+    return m!=NULL && m->type!=PWART_MODULE_TYPE_NULL ? m : NULL;
+}
+
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
     if(m!=NULL){
@@ -119,7 +124,7 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
     const char *name;
-    m=pwart_namespace_find_module(ns,mod->name);
+    m=namespace_FindEntry(n,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
         name=m->name;
-- 
2.43.0


From 86fc4d2c49c7628ef19878536fac2d06e0066aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:25 +0000
Subject: [PATCH 51/94] fix: pwart_namespace_meta.this read the resolver
 instead of the namespace

---
 pwart/def.h       | 1 +
 pwart/namespace.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index 858ca8c..06930fe 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -237,6 +237,7 @@ typedef struct {
     struct dynarr *mods;   //modules in this namespace, type pwart_named_module.
     struct pwart_host_module *nsmeta; //meta info module of current namespace.
     void *nsmetasyms[1];
+    void *nsmeta_this; //the value of pwart_namespace_meta.this
 } Namespace;
 
 
diff --git a/pwart/namespace.c b/pwart/namespace.c
index f1c2644..3e279b1 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -53,7 +53,8 @@ extern pwart_namespace pwart_namespace_new(){
     Namespace *ns=(Namespace *)wa_calloc(sizeof(Namespace));
     dynarr_init(&ns->mods,sizeof(struct pwart_named_module));
     ns->resolver.resolve=&namespace_SymbolResolve;
-    ns->nsmetasyms[0]=ns;
+    ns->nsmeta_this=ns;
+    ns->nsmetasyms[0]=&ns->nsmeta_this;
     ns->nsmeta=pwart_namespace_new_host_module2(nsmetaSymbolNames, &ns->nsmetasyms[0], 1);
     pwart_namespace_define_host_module(ns,"pwart_namespace_meta", ns->nsmeta);
     return ns;
-- 
2.43.0


From 562e5253a167d5f9a8ce82d0e80b9df6843a28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 52/94] fix: load_module crashed when the module could not be
 loaded

---
 pwart/extfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 8e87296..5095cc7 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -435,7 +435,7 @@ static void insn_load_module(void *fp){
   Namespace *ns=namespace_GetNamespaceFormResolver(m->resolver);
   char *err_msg=NULL;
   pwart_module_state stat=pwart_namespace_define_wasm_module((pwart_namespace)ns,name,wasm_bytes,length,&err_msg);
-  pwart_wasm_function stfn=pwart_get_start_function(stat);
+  pwart_wasm_function stfn=stat!=NULL?pwart_get_start_function(stat):NULL;
   if(stfn!=NULL){
     pwart_call_wasm_function(stfn,sp);
   }
-- 
2.43.0


From 76bc66a74321ea43520b12b2d125dae4bbdcf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 53/94] fix: fopen and fclose reported a stale errno on success

---
 pwart/extfunc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 5095cc7..e7a6fa2 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -747,7 +747,7 @@ static void insn_fopen(void *fp){
   sp=fp;
   FILE *f=fopen(filename,mode);
   pwart_rstack_put_ref(&sp,f);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,f!=NULL?0:errno);
 }
 
 static void insn_fread(void *fp){
@@ -778,8 +778,8 @@ static void insn_fclose(void *fp){
   void *sp=fp;
   _wargref(file)
   sp=fp;
-  fclose(file);
-  pwart_rstack_put_i32(&sp,errno);
+  int err=fclose(file);
+  pwart_rstack_put_i32(&sp,err==0?0:errno);
 }
 
 static void insn_stdio(void *fp){
-- 
2.43.0


From 90e407c8f64e8c918bad1c6c1e41956520497fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 54/94] fix: an index of ref_from_index that is no longer a
 constant is reported, return_call of an inlined builtin returns

---
 pwart/opgen_ctl.c  | 13 +++++++++----
 pwart/opgen_misc.c |  5 +++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index a166a42..64cc0b7 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -312,18 +312,23 @@ static void opgen_GenReturn(ModuleCompiler *m) {
   m->block_returned=1;
 }
 
-static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
+static char *opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
   WasmFunction *fn;
-  int a;
+  int a,stub;
   StackValue *sv;
   Type *type;
   fn = dynarr_get(m->functions, WasmFunction, fidx);
-  if(!pwart_CheckAndGenStubFunction(m,fn->func_ptr)){
+  stub = pwart_CheckAndGenStubFunction(m,fn->func_ptr);
+  if(stub<0)return "memory index of ref_from_index must be a constant.";
+  if(!stub){
     a = pwart_GetFreeReg(m, RT_BASE, 0);
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
+  }else if(callReturn){
+    opgen_GenReturn(m);
   }
+  return NULL;
 }
 
 static void opgen_GenCallIndirect(ModuleCompiler *m, int32_t typeidx,
@@ -434,7 +439,7 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case WASMOPC_call:
   case WASMOPC_return_call: 
     fidx = read_LEB(bytes, &m->pc, 32);
-    opgen_GenCall(m, fidx,opcode==WASMOPC_return_call);
+    ReturnIfErr(opgen_GenCall(m, fidx,opcode==WASMOPC_return_call));
     break;
   case WASMOPC_call_indirect:
   case WASMOPC_return_call_indirect:
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 30f4580..b026f2e 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -170,7 +170,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
 }
 
 
-//if fn is stub/inline function, generate native code and return 1, else return 0.
+//if fn is stub/inline function, generate native code and return 1, else return 0. return -1 if it can't be generated.
 static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn){
   int i1;
   pwart_get_builtin_symbols(&i1);
@@ -192,7 +192,8 @@ static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn)
     return 1;
   }else if(fn==pwart_InlineFuncList.ref_from_index){
     StackValue *sv=m->stack+m->sp-1;
-    SLJIT_ASSERT((sv->jit_type==SVT_GENERAL) && (sv->val.op==SLJIT_IMM));
+    // memindex must be a constant which hasn't been saved to the stack.
+    if((sv->jit_type!=SVT_GENERAL) || (sv->val.op!=SLJIT_IMM) || (sljit_uw)sv->val.opw>=m->context->memories->len)return -1;
     opgen_GenBaseAddressReg(m,sv->val.opw);
     stackvalue_EmitSwapTopTwoValue(m);
     m->sp--;
-- 
2.43.0


From d36fbf9cdfbf6350d245d7bf8d36b75a908d69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 55/94] fix: the default configuration put the align flag into
 the misc flags

---
 pwart/def.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 06930fe..c953cc2 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -525,8 +525,8 @@ static struct{
 #define WASMOPC_end 0x0b
 
 static struct pwart_global_compile_config pwart_gcfg={
-    .stack_flags=0,
-    .misc_flags=PWART_MISC_FLAGS_LOCALS_ZERO_INIT|PWART_STACK_FLAGS_AUTO_ALIGN
+    .stack_flags=PWART_STACK_FLAGS_AUTO_ALIGN,
+    .misc_flags=PWART_MISC_FLAGS_LOCALS_ZERO_INIT
 };
 
 static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype,int upstack);
-- 
2.43.0


From f935cd37debf9f47b57fc4f6af648a963bf9dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 56/94] fix: the executable offset of a failed allocation was
 read

---
 sljit/sljit_src/sljitLir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit/sljit_src/sljitLir.c b/sljit/sljit_src/sljitLir.c
index 09d1ae4..ff75697 100644
--- a/sljit/sljit_src/sljitLir.c
+++ b/sljit/sljit_src/sljitLir.c
@@ -752,6 +752,8 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
+		if (SLJIT_UNLIKELY(!code))
+			return NULL;
 		*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
-- 
2.43.0


From 43fd7be011544b30f65eca559d06613e807a860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 57/94] fix: x86 two-operand code must not load the first
 source over the base register of the second

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..5e1e2d6 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From a381763cf5691cee6c6c5e65c3937ad7d1e3992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 58/94] fix: x86 multiplication left its result in a temporary
 register when the second source is addressed by the destination

---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 5e1e2d6..9c27854 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 378ebc3f1e36db619c08d76a990396a7c698e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 59/94] fix: x86 shift by a memory operand whose address needs
 a temporary lost the shift register

---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 9c27854..de55908 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* TMP_REG2 may be needed for loading the address of src2. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From 14b147e551c7637d6411f065d027b4b962345a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 60/94] fix: shift into by zero did not copy the source on x86

---
 sljit/sljit_src/sljitNativeX86_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index de55908..f44d766 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2865,8 +2865,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From fc374079f64e3360c6ef473693c2608635391a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 61/94] fix: x86 shift into lost a source held in the shift
 register or addressed the count through the result

---
 sljit/sljit_src/sljitNativeX86_common.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index f44d766..7c1ebd7 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2927,7 +2927,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2951,7 +2951,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2981,6 +2981,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The shift register has already been overwritten. */
+			if (restore_ecx && src1_reg == SLJIT_PREF_SHIFT_REG)
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 75ec7eeaa5493022a49dfeaaf5e6ec0185a46c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 62/94] fix: x86-64 relative jumps and addresses whose target
 is just beyond the reach of 32 bits overflowed

---
 sljit/sljit_src/sljitNativeX86_64.c     | 3 ++-
 sljit/sljit_src/sljitNativeX86_common.c | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_64.c b/sljit/sljit_src/sljitNativeX86_64.c
index 8737d68..7d5ab4c 100644
--- a/sljit/sljit_src/sljitNativeX86_64.c
+++ b/sljit/sljit_src/sljitNativeX86_64.c
@@ -408,7 +408,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		/* The relative form ends three bytes before the absolute one. */
+		diff = (sljit_sw)addr - ((sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset) - (SSIZE_OF(s32) - 1));
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 7c1ebd7..fab1f5d 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -681,6 +681,9 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 	sljit_s32 short_jump;
 	sljit_uw label_addr;
 	sljit_uw jump_addr;
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+	sljit_sw diff;
+#endif /* SLJIT_CONFIG_X86_64 */
 
 	jump_addr = (sljit_uw)code_ptr;
 	if (!(jump->flags & JUMP_ADDR)) {
@@ -692,7 +695,8 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	diff = (sljit_sw)(label_addr - (jump_addr + (type < SLJIT_JUMP ? 6 : 5)));
+	if (diff > HALFWORD_MAX || diff < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From e827e587bbefc97f8cd5763a533376eeeb0a81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 63/94] fix: x86-64 addresses between 2 and 4 GiB failed an
 assertion

---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index fab1f5d..d50041b 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -751,7 +751,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			SLJIT_ASSERT(addr <= 0xffffffffl);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 016e80dd5344e04d84234be97dadf9daeb8a9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 64/94] fix: float and vector register counts were lost when a
 compiler was deserialized

---
 sljit/sljit_src/sljitSerialize.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sljit/sljit_src/sljitSerialize.c b/sljit/sljit_src/sljitSerialize.c
index 042cc18..e38790b 100644
--- a/sljit/sljit_src/sljitSerialize.c
+++ b/sljit/sljit_src/sljitSerialize.c
@@ -97,6 +97,10 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
 };
 
 struct sljit_serialized_label {
@@ -309,6 +313,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -573,6 +583,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From a3f7114b0d977fda26069fed5a402e93848c0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 65/94] fix: setting the context of a function with a float
 result failed an argument check

---
 sljit/sljit_src/sljitLir.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sljit/sljit_src/sljitLir.c b/sljit/sljit_src/sljitLir.c
index ff75697..4e59ee8 100644
--- a/sljit/sljit_src/sljitLir.c
+++ b/sljit/sljit_src/sljitLir.c
@@ -1518,7 +1518,6 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From 6a38123e4402582d021b8938c5646c883d4b1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 66/94] fix: regex non-greedy matching to the end failed for
 patterns which match an empty string

---
 sljit/regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3f95469..6710af5 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2251,7 +2251,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 582ff70bc54a21c069c4d9772130b6f59dfd3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 67/94] fix: regex matches bound to both ends of the input were
 reported before the end

---
 sljit/regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 6710af5..9ac4ac8 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2169,6 +2169,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The next character (if any) still cancels a match which ends here. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From 76867fb396dc3aa6413cdff89b45ad3703bc152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 68/94] fix: regex empty matches at the end of the last line
 had a wrong start

---
 sljit/regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 9ac4ac8..6f56ef3 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1947,6 +1947,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* The end of the last line may match at any position. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline && compiler_common.dfa_transitions[ind].value)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From ed793ce3d9c25bb6240efba75fd2c7317e213860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 69/94] fix: regex line anchors applied only to the first or
 last alternative in new-line mode

---
 sljit/regex_src/regexJIT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 6f56ef3..f2920b7 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -794,6 +794,10 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches belong to all alternatives. */
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_open_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -914,6 +918,9 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_close_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From 9cd875e2c9e3f87f5f9b9e32bdfed0a3bee61066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 70/94] fix: regex matches at the end of the last line were
 ignored if a worse match was found before

---
 sljit/regex_src/regexJIT.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index f2920b7..60294cc 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2456,12 +2456,13 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+		/* A match which ends here may be better than the one which ends before a new-line. */
+		if (match->best_begin != -1 && (match->current[no_states + 2] > match->best_begin
+				|| (match->current[no_states + 2] == match->best_begin && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From 9172476ec07b3f98d2f7dc613f21011be1618a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 71/94] fix: regex characters above 127 in patterns never
 matched

---
 sljit/regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 60294cc..8317629 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -401,6 +401,13 @@ struct compiler_common {
 	struct sljit_jump **range_jump_list;
 };
 
+/* Characters are compared as unsigned values. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(chr) ((int)(sljit_u8)(chr))
+#else
+#define CHAR_VALUE(chr) ((int)(chr))
+#endif
+
 static const regex_char_t* decode_number(const regex_char_t *regex_string, int length, int *result)
 {
 	int value = 0;
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -805,7 +812,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -905,7 +912,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From fbe567c18cd0c3a2718208d40464f73d60114c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 72/94] fix: regex iterations lost parts of the pattern when
 memory ran out

---
 sljit/regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 8317629..c52a80a 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 384b63b8dad7825fadaf4e85975d14e9c7ec7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 73/94] fix: regex literal braces at the beginning of a term
 could not be repeated

---
 sljit/regex_src/regexJIT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index c52a80a..02abdb4 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -888,6 +888,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				SLJIT_ASSERT(tmp == -2);
 				if (stack_push(stack, type_char, '{'))
 					return REGEX_MEMORY_ERROR;
+				begin = 0;
 				compiler_common->dfa_size++;
 			}
 			break;
-- 
2.43.0


From 3cfabb48502a05fd34c5ce3c77b3cda49287bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 74/94] fix: regex matches which ended at the last character
 were still reported after a reset

---
 sljit/regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 02abdb4..3faafd0 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2439,6 +2439,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is never a member of the chain list. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From c9b42b6af9e8186d542b3e8be37bf48a6934d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 75/94] fix: foreign-function callbacks released their data at
 the first call and overlapped each other

---
 pwart_syslib/libffi.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..d0b2eb0 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -111,11 +111,17 @@ static void wasm__ffi_call(void *fp){
 }
 
 
+/* A closure is followed by the function and the user data it passes on, which stay until it is freed. */
+struct libffi_wasmclosure{
+    ffi_closure closure;
+    void *userdata2[2];
+};
+
 static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(struct libffi_wasmclosure),&code);
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -128,7 +134,6 @@ static void wasm__ffi_closure_free(void *fp){
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -146,7 +151,7 @@ static void wasm__ffi_prep_closure_loc(void *fp){
     _wargref(user_data)
     _wargref(codeloc);
     sp=fp;
-    void **userdata2=wa_malloc(sizeof(void *)*2);
+    void **userdata2=((struct libffi_wasmclosure *)closure)->userdata2;
     userdata2[0]=fn;
     userdata2[1]=user_data;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__ffi_closurecb,userdata2,codeloc);
@@ -156,7 +161,6 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -179,10 +183,10 @@ static void wasm__ffix_new_c_callback(void *fp){
     _wargref(user_data)
     sp=fp;
     void *code=NULL;
-    void **userdata2=wa_malloc(sizeof(void *)*2);
+    void *closure=ffi_closure_alloc(sizeof(struct libffi_wasmclosure),&code);
+    void **userdata2=((struct libffi_wasmclosure *)closure)->userdata2;
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
-- 
2.43.0


From 527a2a0ddb1aba54cff9ed949caa2f5647b2cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 76/94] fix: threads of the event-loop bridge were started on
 their descriptor instead of their stack

---
 pwart_syslib/libuv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..69ebffc 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -53,7 +53,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
-- 
2.43.0


From 3e454fd4792b3727047f6f3f488defff1475edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 77/94] fix: results of trylock and timedwait were put behind
 their arguments

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 69ebffc..e25ac42 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -94,6 +94,7 @@ static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
     int err=uv_mutex_trylock(mut);
+    sp=fp;
     pwart_rstack_put_i32(&sp,err);
 }
 
@@ -138,6 +139,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(mut)
     _wargi64(timeout)
     int r=uv_cond_timedwait(cond,mut,timeout);
+    sp=fp;
     pwart_rstack_put_i32(&sp,r);
 }
 
-- 
2.43.0


From af4a195716413069897fed88e9583fb31fc9869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 78/94] fix: the table of builtin symbols was built on first
 use without regard to other threads

---
 pwart/def.h        |  2 +-
 pwart/opgen_misc.c |  2 --
 pwart/pwart.c      | 77 +++++++++++++++++++++-------------------------
 3 files changed, 36 insertions(+), 45 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index c953cc2..0c1bfd5 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -492,7 +492,7 @@ static char OPERATOR_INFO[][20] = {
 
 #endif
 
-static struct{
+static struct pwart_inline_func_list{
   pwart_wasm_function get_self_runtime_context;
   pwart_wasm_function ref_from_index;
   pwart_wasm_function ref_from_i64;
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index b026f2e..38e8111 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -172,8 +172,6 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
 
 //if fn is stub/inline function, generate native code and return 1, else return 0. return -1 if it can't be generated.
 static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn){
-  int i1;
-  pwart_get_builtin_symbols(&i1);
   if(fn==pwart_InlineFuncList.get_self_runtime_context){
     opgen_GenRefConst(m,m->context);
     return 1;
diff --git a/pwart/pwart.c b/pwart/pwart.c
index 917c341..68c1459 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -276,53 +276,46 @@ extern pwart_wasm_function pwart_get_start_function(pwart_module_state m){
     }
 }
 
-static struct dynarr *builtin_symbols=NULL;  //type pwart_named_symbol
 static struct pwart_wasm_memory native_memory={
     .bytes=NULL,.fixed=1,.initial=0x7fffffff,.maximum=0x7fffffff,.pages=0x7fffffff
 };
 
-#define _ADD_BUILTIN_FN(fname) sym=dynarr_push_type(&builtin_symbols,struct pwart_named_symbol); \
-sym->name=#fname; \
-sym->kind=PWART_KIND_FUNCTION;\
-sym->val.fn=pwart_wrap_host_function_c((void *)insn_##fname);
+#define _BUILTIN_FN(fname) {.name=#fname,.kind=PWART_KIND_FUNCTION,.val={.fn=(void *)insn_##fname}}
+
+//initialized statically, so that modules can be compiled by several threads at the same time.
+static struct pwart_named_symbol builtin_symbols[]={
+    _BUILTIN_FN(version),
+    _BUILTIN_FN(memory_alloc),
+    _BUILTIN_FN(memory_free),
+    _BUILTIN_FN(load_module),
+    _BUILTIN_FN(unload_module),
+    _BUILTIN_FN(import),
+    _BUILTIN_FN(get_self_runtime_context),
+    _BUILTIN_FN(native_index_size),
+    _BUILTIN_FN(ref_from_index),
+    _BUILTIN_FN(ref_copy_bytes),
+    _BUILTIN_FN(ref_string_length),
+    _BUILTIN_FN(ref_from_i64),
+    _BUILTIN_FN(i64_from_ref),
+    _BUILTIN_FN(host_definition),
+    _BUILTIN_FN(fread),
+    _BUILTIN_FN(fwrite),
+    _BUILTIN_FN(fopen),
+    _BUILTIN_FN(fclose),
+    _BUILTIN_FN(stdio),
+    {.name="native_memory",.kind=PWART_KIND_MEMORY,.val={.mem=&native_memory}}
+};
+
+static struct pwart_inline_func_list pwart_InlineFuncList={
+    .get_self_runtime_context=(void *)insn_get_self_runtime_context,
+    .ref_from_index=(void *)insn_ref_from_index,
+    .ref_from_i64=(void *)insn_ref_from_i64,
+    .i64_from_ref=(void *)insn_i64_from_ref
+};
 
 extern struct pwart_named_symbol *pwart_get_builtin_symbols(int *arr_size){
-    if(builtin_symbols==NULL){
-        struct pwart_named_symbol *sym;
-        dynarr_init(&builtin_symbols,sizeof(struct pwart_named_symbol));
-        _ADD_BUILTIN_FN(version)
-        _ADD_BUILTIN_FN(memory_alloc)
-        _ADD_BUILTIN_FN(memory_free)
-        _ADD_BUILTIN_FN(load_module)
-        _ADD_BUILTIN_FN(unload_module)
-        _ADD_BUILTIN_FN(import)
-        _ADD_BUILTIN_FN(get_self_runtime_context)
-        pwart_InlineFuncList.get_self_runtime_context=sym->val.fn;
-        _ADD_BUILTIN_FN(native_index_size)
-        _ADD_BUILTIN_FN(ref_from_index)
-        pwart_InlineFuncList.ref_from_index=sym->val.fn;
-        _ADD_BUILTIN_FN(ref_copy_bytes)
-        _ADD_BUILTIN_FN(ref_string_length)
-        _ADD_BUILTIN_FN(ref_from_i64)
-        pwart_InlineFuncList.ref_from_i64=sym->val.fn;
-        _ADD_BUILTIN_FN(i64_from_ref)
-        pwart_InlineFuncList.i64_from_ref=sym->val.fn;
-
-        _ADD_BUILTIN_FN(host_definition)
-
-        _ADD_BUILTIN_FN(fread)
-        _ADD_BUILTIN_FN(fwrite)
-        _ADD_BUILTIN_FN(fopen)
-        _ADD_BUILTIN_FN(fclose)
-        _ADD_BUILTIN_FN(stdio)
-        
-        sym=dynarr_push_type(&builtin_symbols,struct pwart_named_symbol);
-        sym->name="native_memory";
-        sym->kind=PWART_KIND_MEMORY;
-        sym->val.mem=&native_memory;
-    }
-    *arr_size=builtin_symbols->len;
-    return (struct pwart_named_symbol *)&builtin_symbols->data;
+    *arr_size=sizeof(builtin_symbols)/sizeof(builtin_symbols[0]);
+    return builtin_symbols;
 }
 
-#undef _ADD_BUILTIN_FN
\ No newline at end of file
+#undef _BUILTIN_FN
\ No newline at end of file
-- 
2.43.0


From 35d7f0dc273863ef43a57c504a717fab106f5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 79/94] fix: 64-bit immediate of sljit_emit_simd_lane_mov was
 truncated to 32 bits

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index d50041b..3ae49ae 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4320,6 +4320,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From f18024746b7227874eac1de647bef5afbdab1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 80/94] fix: sljit_emit_simd_sign with 16-bit elements changed
 the flags

---
 sljit/sljit_src/sljitNativeX86_common.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 3ae49ae..3793fba 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4753,7 +4753,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
 	sljit_uw op;
-	sljit_u8 *inst;
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+	sljit_s32 opcode3 = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_32 */
+	sljit_s32 opcode3 = SLJIT_S0;
+#endif /* SLJIT_CONFIG_X86_32 */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
@@ -4765,6 +4769,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	compiler->mode32 = 1;
 #endif /* SLJIT_CONFIG_X86_64 */
 
+	SLJIT_ASSERT(reg_map[opcode3] == 3);
+
 	if (elem_size > 3 || ((type & SLJIT_SIMD_FLOAT) && elem_size < 2))
 		return SLJIT_ERR_UNSUPPORTED;
 
@@ -4780,6 +4786,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 				FAIL_IF(emit_vex_instruction(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2 | VEX_SSE2_OPV, TMP_FREG, vreg, vreg, 0));
 			else
 				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
+
+			/* Keep only the upper half. Shifting the result would change the flags. */
+			if (use_vex)
+				FAIL_IF(emit_vex_instruction(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2 | VEX_SSE2_OPV, opcode3, TMP_FREG, TMP_FREG, 0));
+			else
+				FAIL_IF(emit_groupf(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2, opcode3, TMP_FREG, 0));
+			FAIL_IF(emit_byte(compiler, 8));
+
 			vreg = TMP_FREG;
 			break;
 		case 2:
@@ -4799,12 +4813,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From 3888073c81c66a55105a52a7226e42b6b03f1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 81/94] fix: 256-bit sljit_emit_simd_op2 loaded only half of an
 unaligned memory operand

---
 sljit/sljit_src/sljitNativeX86_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 3793fba..2841a4b 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4925,7 +4925,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			mov_op |= VEX_256;
+
+		if (reg_size == 5 || use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From 7880ef6640ac0c1ea519e235ee961422300184b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 82/94] fix: keep the index of the cached memory in 32 bits

Compiling a function of a module with more than 32767 memories read before
the list of memories.
---
 pwart/def.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index 0c1bfd5..21ccf63 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -217,7 +217,7 @@ typedef struct ModuleCompiler {
     int16_t mem_base_local;   // index of local variable which store memory 0 base.
     int16_t table_entries_local;  // index of local variable which store the table 0 base.
     int16_t first_stackvalue_offset;
-    int16_t cached_midx;     //the index of memory we cache memory base to register.
+    int32_t cached_midx;     //the index of memory we cache memory base to register.
     struct dynarr *locals_need_zero;  //the array of index of locals we need zero init, type int16_t
     uint32_t registers_status[SLJIT_NUMBER_OF_SCRATCH_REGISTERS]; // register status [Rx-R0]
     uint32_t float_registers_status[SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS];
-- 
2.43.0


From efef1798a65808abc393015c852aae5bfe6532c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 83/94] fix: keep the numbers of own tables and memories in 32
 bits

With 65536 tables or more most of their entries were not freed with the
module.
---
 pwart/def.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 21ccf63..98bfca0 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -151,9 +151,9 @@ typedef struct RuntimeContext{
     WasmFunctionEntry *funcentries;  // imported and locally defined functions, type WasmFunctionEntry
     uint32_t funcentries_count;
     uint32_t import_funcentries_count;
-    uint16_t import_tables_count;
-    uint16_t own_tables_count;
-    uint16_t own_memories_count;
+    uint32_t import_tables_count;
+    uint32_t own_tables_count;
+    uint32_t own_memories_count;
     Table *own_tables; //tables owned by module self, not imported. (can't move)
     Memory *own_memories; //memories owned by module self, not imported. (can't move)
     //XXX: maybe use fixed size array is better
-- 
2.43.0


From 7baa4a881e5f72815e20d9081d913d40df642db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:26 +0000
Subject: [PATCH 84/94] fix: removing a host module survives its on_detached
 changing the namespace

on_detached is documented to run after the removal, but the entry was
cleared only afterwards, through a pointer into the array of modules which
on_detached may have moved.
---
 pwart/namespace.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 3e279b1..966383d 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -104,18 +104,22 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
 
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
+    struct pwart_host_module *host;
     if(m!=NULL){
         switch(m->type){
             case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
+                host=m->val.host;
+                m->type=PWART_MODULE_TYPE_NULL;
+                //on_detached may change the namespace, don't use m after it.
+                if(host->on_detached!=NULL){
+                    host->on_detached(host);
                 }
                 break;
             case PWART_MODULE_TYPE_WASM_MODULE:
                 ReturnIfErr(pwart_free_module_state(m->val.wasm));
+                m->type=PWART_MODULE_TYPE_NULL;
                 break;
         }
-        m->type=PWART_MODULE_TYPE_NULL;
     }
     return NULL;
 }
@@ -127,8 +131,10 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     const char *name;
     m=namespace_FindEntry(n,mod->name);
     if(m!=NULL){
-        pwart_namespace_remove_module(ns,m->name);
         name=m->name;
+        pwart_namespace_remove_module(ns,name);
+        //on_detached may have moved the entries.
+        m=namespace_FindEntry(n,name);
     }else{
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
         name=strcpy(wa_malloc(strlen(mod->name)+1),mod->name);
-- 
2.43.0


From a7091f1d4a2b176af30ce2123f2fd899e1c5397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 85/94] fix: WASI environ_get and environ_sizes_get free the
 environment they queried

---
 pwart_syslib/libwasi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 5d65337..c5a5a3a 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -69,6 +69,7 @@ static void wasm__environ_get(void *fp) {
     *buf='\0';
     buf+=1;
   }
+  uv_os_free_environ(penv,envcnt);
   sp = fp;
   pwart_rstack_put_i32(&sp, 0);
 }
@@ -82,6 +83,7 @@ static void wasm__environ_sizes_get(void *fp) {
   for(i=0;i<envcnt;i++){
     size+=strlen(penv[i].name)+strlen(penv[i].value)+2;
   } 
+  uv_os_free_environ(penv,envcnt);
   *(uint32_t *)(uwmem->bytes + environ_count)=envcnt;
   *(uint32_t *)(uwmem->bytes + environ_buf_size)=size;
   sp = fp;
-- 
2.43.0


From 1440046844f244f41168d38641a98a17f15b4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 86/94] fix: pwart_wasi_module_init does not leak the list of
 preopened directories

---
 pwart_syslib/libwasi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index c5a5a3a..5cab7f5 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -445,6 +445,7 @@ extern void pwart_wasi_module_set_wasiargs(uint32_t argc, char **argv) {
 
 extern char *pwart_wasi_module_init(){
   uvwasi_options_t init_options;
+  uvwasi_preopen_t preopen;
   uvwasi_errno_t err;
   uvwasi_options_init(&init_options);
   if(uvwcinited){
@@ -460,7 +461,7 @@ extern char *pwart_wasi_module_init(){
   /* init_options.envp = (const char **)environ; */
   init_options.envp=NULL;
   init_options.preopenc = 1;
-  init_options.preopens = wa_malloc(sizeof(uvwasi_preopen_t));
+  init_options.preopens = &preopen;
   init_options.preopens->mapped_path="/";
   init_options.preopens->real_path=".";
   init_options.allocator = NULL;
-- 
2.43.0


From 8523afcae0a812c8ee984b34b5d998e9f5404917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 87/94] fix: long WASI iovec arrays do not overflow the wasm
 stack

---
 pwart_syslib/libwasi.c | 52 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 5cab7f5..8c521cd 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -15,6 +15,26 @@ static int uvwcinited=0;
 
 static struct dynarr *wasisyms = NULL; // type pwart_named_symbol
 
+//translate the iovec array in wasm memory. The result should be freed by wa_free.
+static uvwasi_iovec_t *wasi_ImportIovs(uint32_t iovs,uint32_t iovs_len){
+  uvwasi_iovec_t *iovs2=wa_malloc(sizeof(uvwasi_iovec_t)*(size_t)iovs_len);
+  uint32_t i;
+  for(i=0;i<iovs_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
+  }
+  return iovs2;
+}
+static uvwasi_ciovec_t *wasi_ImportCiovs(uint32_t iovs,uint32_t iovs_len){
+  uvwasi_ciovec_t *iovs2=wa_malloc(sizeof(uvwasi_ciovec_t)*(size_t)iovs_len);
+  uint32_t i;
+  for(i=0;i<iovs_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
+  }
+  return iovs2;
+}
+
 static void wasm__args_get(void *fp) { 
    void *sp = fp;
   _wargi32(argv) _wargi32(argv_buf) 
@@ -163,15 +183,11 @@ static void wasm__fd_pread(void *fp) {
    void *sp = fp;
   _wargi32(fd) _wargi32(iovs) _wargi32(iovs_len) _wargi64(offset)
   _wargi32(nread)
-  uvwasi_iovec_t *iovs2=sp;
-  uint32_t i;
-  for(i=0;i<iovs_len;i++){
-    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
-    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
-  }
+  uvwasi_iovec_t *iovs2=wasi_ImportIovs(iovs,iovs_len);
   uvwasi_errno_t err =
       uvwasi_fd_pread(&uvwc, fd, iovs2, iovs_len, offset,
                       (uvwasi_size_t *)(uwmem->bytes + nread));
+  wa_free(iovs2);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
 }
@@ -193,29 +209,21 @@ static void wasm__fd_pwrite(void *fp) {
    void *sp = fp;
   _wargi32(fd) _wargi32(iovs) _wargi32(iovs_len) _wargi64(offset)
   _wargi32(nwritten)
-  uvwasi_ciovec_t *iovs2=sp;
-  uint32_t i;
-  for(i=0;i<iovs_len;i++){
-    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
-    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
-  }
+  uvwasi_ciovec_t *iovs2=wasi_ImportCiovs(iovs,iovs_len);
   uvwasi_errno_t err =
       uvwasi_fd_pwrite(&uvwc, fd, iovs2, iovs_len, offset,
                         uwmem->bytes + nwritten);
+  wa_free(iovs2);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
 }
 static void wasm__fd_read(void *fp) { 
    void *sp = fp;
   _wargi32(fd) _wargi32(iovs) _wargi32(iovs_len) _wargi32(nread)
-  uvwasi_iovec_t *iovs2=sp;
-  uint32_t i;
-  for(i=0;i<iovs_len;i++){
-    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
-    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
-  }
+  uvwasi_iovec_t *iovs2=wasi_ImportIovs(iovs,iovs_len);
   uvwasi_errno_t err = uvwasi_fd_read(&uvwc, fd, iovs2,
                                       iovs_len, (uvwasi_size_t *)(uwmem->bytes + nread));
+  wa_free(iovs2);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
 }
@@ -259,14 +267,10 @@ static void wasm__fd_tell(void *fp) {
 static void wasm__fd_write(void *fp) { 
    void *sp = fp;
   _wargi32(fd) _wargi32(iovs) _wargi32(iovs_len) _wargi32(nwritten)
-  uvwasi_ciovec_t *iovs2=sp;
-  uint32_t i;
-  for(i=0;i<iovs_len;i++){
-    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + iovs + 8*i);
-    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + iovs + 8*i+4);
-  }
+  uvwasi_ciovec_t *iovs2=wasi_ImportCiovs(iovs,iovs_len);
   uvwasi_errno_t err = uvwasi_fd_write(&uvwc, fd, iovs2,
                                         iovs_len, uwmem->bytes + nwritten);
+  wa_free(iovs2);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
 }
-- 
2.43.0


From 2944cb9e006e5fe8aeaee1f27d638b6daebb0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 88/94] fix: WASI sock_recv and sock_send translate their iovec
 arrays

---
 pwart_syslib/libwasi.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 8c521cd..7933e0d 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -408,19 +408,25 @@ static void wasm__sock_accept(void *fp) {
 static void wasm__sock_recv(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(ri_data) _wargi32(ri_data_len) _wargi32(ri_flags)
-      _wargi32(ro_datalen) _wargi32(ro_flags) uvwasi_errno_t err =
-          uvwasi_sock_recv(&uvwc, sock, uwmem->bytes + ri_data, ri_data_len,
+      _wargi32(ro_datalen) _wargi32(ro_flags)
+      uvwasi_iovec_t *iovs2=wasi_ImportIovs(ri_data,ri_data_len);
+      uvwasi_errno_t err =
+          uvwasi_sock_recv(&uvwc, sock, iovs2, ri_data_len,
                            ri_flags, uwmem->bytes + ro_datalen,
                            uwmem->bytes + ro_flags);
+  wa_free(iovs2);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
 }
 static void wasm__sock_send(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(si_data) _wargi32(si_data_len) _wargi32(si_flags)
-      _wargi32(so_datalen) uvwasi_errno_t err =
-          uvwasi_sock_send(&uvwc, sock, uwmem->bytes + si_data, si_data_len,
+      _wargi32(so_datalen)
+      uvwasi_ciovec_t *iovs2=wasi_ImportCiovs(si_data,si_data_len);
+      uvwasi_errno_t err =
+          uvwasi_sock_send(&uvwc, sock, iovs2, si_data_len,
                            si_flags, uwmem->bytes + so_datalen);
+  wa_free(iovs2);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
 }
-- 
2.43.0


From 87baa575b3e1d44d2eda8946fe22651cd6068db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 89/94] fix: pwart_syslib_unload removes the modules it
 deletes, and accepts a missing WASI module

---
 pwart_syslib/pwart_syslib.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/pwart_syslib.c b/pwart_syslib/pwart_syslib.c
index 5eda5eb..6468066 100644
--- a/pwart_syslib/pwart_syslib.c
+++ b/pwart_syslib/pwart_syslib.c
@@ -40,9 +40,24 @@ extern char *pwart_syslib_load(pwart_namespace ns){
     return NULL;
 }
 
+//remove the module from namespace, and return it if exist.
+static struct pwart_host_module *syslib_RemoveModule(pwart_namespace ns,const char *name){
+    struct pwart_named_module *mod=pwart_namespace_find_module(ns,name);
+    struct pwart_host_module *host=NULL;
+    if(mod!=NULL){
+        host=mod->val.host;
+        pwart_namespace_remove_module(ns,name);
+    }
+    return host;
+}
+
 extern char *pwart_syslib_unload(pwart_namespace ns){
-    pwart_libuv_module_delete(pwart_namespace_find_module(ns,"libuv")->val.host);
-    pwart_libffi_module_delete(pwart_namespace_find_module(ns,"libffi")->val.host);
-    pwart_wasi_module_delete(pwart_namespace_find_module(ns,"wasi_snapshot_preview1")->val.host);
+    struct pwart_host_module *mod;
+    mod=syslib_RemoveModule(ns,"libuv");
+    if(mod!=NULL)pwart_libuv_module_delete(mod);
+    mod=syslib_RemoveModule(ns,"libffi");
+    if(mod!=NULL)pwart_libffi_module_delete(mod);
+    mod=syslib_RemoveModule(ns,"wasi_snapshot_preview1");
+    if(mod!=NULL)pwart_wasi_module_delete(mod);
     return NULL;
-}
\ No newline at end of file
+}
-- 
2.43.0


From ee4caf754b121002976d5040b0a4d77f53843cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 90/94] fix: pwart_wasiexec reports a file it can not open

---
 pwart_syslib/wasiexec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 07fd6fb..0c3de8b 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -18,6 +18,10 @@ int main(int argc,char **argv){
         int returncode;
 
         f = fopen(modpath, "rb");
+        if(f==NULL){
+            printf("can not open %s\n",modpath);
+            return 1;
+        }
 
         fseek(f,0,SEEK_END);
         filesize=ftell(f);
-- 
2.43.0


From 3f6fabf4179a4658db184f0f438509f73f5eb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 91/94] fix: pwart_wasiexec runs a module even if uvwasi fails
 to initialize

---
 pwart_syslib/wasiexec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 0c3de8b..9b09dbc 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -39,6 +39,7 @@ int main(int argc,char **argv){
         err=pwart_wasi_module_init();
         if(err!=NULL){
             printf("warning:%s uvwasi will not load",err);
+            err=NULL;
         }
         pwart_syslib_load(ns);
         len = fread(data, 1, filesize, f);
-- 
2.43.0


From 8b21936d282875e4464dff55e827e84db083ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 92/94] fix: reversing bytes of a 16-bit immediate wider than
 32 bits stopped the code generator

---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 2841a4b..9acacdd 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -1819,7 +1819,7 @@ static sljit_s32 emit_bswap(struct sljit_compiler *compiler,
 	if (src != dst_r) {
 		/* Only the lower 16 bit is read for eregs. */
 		if (op == SLJIT_REV_U16 || op == SLJIT_REV_S16)
-			FAIL_IF(emit_mov_half(compiler, 0, dst_r, 0, src, srcw));
+			FAIL_IF(emit_mov_half(compiler, 0, dst_r, 0, src, src == SLJIT_IMM ? (sljit_u16)srcw : srcw));
 		else
 			EMIT_MOV(compiler, dst_r, 0, src, srcw);
 	}
-- 
2.43.0


From 85b4645acdb55c949ccc136562dea187b6176876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 93/94] fix: running out of memory while negating or taking the
 absolute value of a float crashed

---
 sljit/sljit_src/sljitNativeX86_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 9acacdd..86e2962 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -3314,6 +3314,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From 23f00b873a72f5e627e2ec97d9833f16a018c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 94/94] fix: a module whose code could not be generated for
 lack of memory was loaded with null functions

---
 pwart/wagen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index da62982..29709a1 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -341,6 +341,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   #endif
 
   m->jitc = sljit_create_compiler(NULL);
+  if(m->jitc==NULL)return "no enough memory";
 #if DEBUG_BUILD
   m->jitc->verbose = stdout;
 #endif
@@ -421,6 +422,7 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   sljit_free_compiler(m->jitc);
   m->jitc=NULL;
   dynarr_free(&m->locals);
+  if(code==NULL)return "no enough memory";
   func->func_ptr = code;
   return NULL;
 }
-- 
2.43.0

