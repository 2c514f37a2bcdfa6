From 5b2b4a5d510116367524c4a50ff813cf01b0d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:19 +0000
Subject: [PATCH 01/48] fix: IEEE backend evaluates the unordered-or comparison
 predicates

---
 src/backends/interflop-backend-ieee/interflop_ieee.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 2a6b357..5a3cedd 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -246,27 +246,27 @@ static inline void debug_print_fma_double(void *context,
     (STR) = "FCMP_ORD";                                                        \
     break;                                                                     \
   case FCMP_UEQ:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessgreater(A, B);                                               \
     (STR) = "FCMP_UEQ";                                                        \
     break;                                                                     \
   case FCMP_UGT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessequal(A, B);                                                 \
     (STR) = "FCMP_UGT";                                                        \
     break;                                                                     \
   case FCMP_UGE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isless(A, B);                                                      \
     (STR) = "FCMP_UGE";                                                        \
     break;                                                                     \
   case FCMP_ULT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreaterequal(A, B);                                              \
     (STR) = "FCMP_ULT";                                                        \
     break;                                                                     \
   case FCMP_ULE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreater(A, B);                                                   \
     (STR) = "FCMP_ULE";                                                        \
     break;                                                                     \
   case FCMP_UNE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = ((A) != (B));                                                       \
     (STR) = "FCMP_UNE";                                                        \
     break;                                                                     \
   case FCMP_UNO:                                                               \
-- 
2.43.0


From 9a60bdec48e172004a0e65109057fa201cfd0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:06 +0000
Subject: [PATCH 02/48] fix: parsing VFC_BACKENDS no longer truncates the
 program's environment

---
 src/vfcwrapper/main.c.in | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e703f5d..da3c583 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -265,10 +265,12 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
 
   /* Parse VFC_BACKENDS */
   *vfc_backends_env = (char *)malloc(sizeof(char) * 256);
-  *vfc_backends = (char *)malloc(sizeof(char) * 256);
 
   sprintf(*vfc_backends_env, "VFC_BACKENDS");
-  *vfc_backends = getenv(*vfc_backends_env);
+  /* The list is tokenized in place, work on a copy so that the environment of
+   * the program (and of its children) is left untouched */
+  char *env_value = getenv(*vfc_backends_env);
+  *vfc_backends = (env_value != NULL) ? strdup(env_value) : NULL;
 
   /* Parse VFC_BACKENDS_FROM_FILE if VFC_BACKENDS is empty*/
   if (*vfc_backends == NULL) {
-- 
2.43.0


From 9a2bb39c180605e33d476feaf93b917d74fd1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:06 +0000
Subject: [PATCH 03/48] fix: room for the terminating NULL after MAX_ARGS
 backend arguments

---
 src/vfcwrapper/main.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index da3c583..0b51488 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -461,7 +461,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
   while (token) {
     /* Parse each backend arguments, argv[0] is the backend name */
     int backend_argc = 0;
-    char *backend_argv[MAX_ARGS];
+    char *backend_argv[MAX_ARGS + 1];
     char *spaceptr;
     char *arg = strtok_r(token, " ", &spaceptr);
     while (arg) {
-- 
2.43.0


From 54e9125bd7a05aaaeaef46d71f2e89b586110b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 04/48] fix: comparisons of two-lane vectors can be
 instrumented

---
 src/libvfcinstrument/libVFCInstrument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 0d4a1f7..e54927f 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -497,8 +497,10 @@ struct VfclibInst : public ModulePass {
       auto size = ((::llvm::FixedVectorType *)vTy)->getNumElements();
       res = GET_VECTOR_TYPE(res, size);
     }
-    Value *newInst = Builder.CreateCall(
+    CallInst *call = Builder.CreateCall(
         F, {Builder.getInt32(FCI->getPredicate()), op1, op2});
+    call->setAttributes(F->getAttributes());
+    Value *newInst = updateReturn(Builder, call, res);
     newInst = Builder.CreateIntCast(newInst, retType, true);
     return newInst;
   }
-- 
2.43.0


From ed343bdcdf79b32b10c74294a752c79d62e8d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:18 +0000
Subject: [PATCH 05/48] fix: callers of vector wrappers allow vectors as wide
 as the wrappers do

---
 src/libvfcinstrument/libVFCInstrument.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index e54927f..e965207 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -544,6 +544,22 @@ struct VfclibInst : public ModulePass {
             caller->getFnAttribute("target-cpu"));
   }
 
+  // The widest legal vector decides how vector arguments are split between
+  // registers, so the caller must allow vectors as wide as the callee does.
+  void updateMinLegalVectorWidth(Function *caller, Function *callee) {
+    const char *attr = "min-legal-vector-width";
+    unsigned callerWidth = 0, calleeWidth = 0;
+    if (not caller->hasFnAttribute(attr) or not callee->hasFnAttribute(attr))
+      return;
+    caller->getFnAttribute(attr).getValueAsString().getAsInteger(0,
+                                                                 callerWidth);
+    callee->getFnAttribute(attr).getValueAsString().getAsInteger(0,
+                                                                 calleeWidth);
+    if (callerWidth < calleeWidth) {
+      caller->addFnAttr(attr, std::to_string(calleeWidth));
+    }
+  }
+
   Value *replaceWithMCACall(Module &M, Instruction *I, FPOps opCode) {
     if (not isValidInstruction(I)) {
       return nullptr;
@@ -563,6 +579,7 @@ struct VfclibInst : public ModulePass {
       caller->addFnAttr(target_features);
       caller->addFnAttr(target_cpu);
     }
+    updateMinLegalVectorWidth(caller, mcaFunction);
 
     // We call directly a hardcoded helper function
     // no need to go through the vtable at this stage.
-- 
2.43.0


From a9290eb98a804f8aa06adf0b8531642e7a06c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:35 +0000
Subject: [PATCH 06/48] fix: results of two-lane float operations reach the
 program

---
 src/libvfcinstrument/libVFCInstrument.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index e965207..047be20 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -450,9 +450,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace fma arithmetic instructions with MCA */
@@ -472,9 +470,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2, op3});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace comparison instructions with MCA */
-- 
2.43.0


From b407390b17a946edd440e89f65cec1cf478c87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:42 +0000
Subject: [PATCH 07/48] fix: removed keys of the hashmap are no longer found
 and their slots are reused

---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 2208c55..8c3c291 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -131,15 +131,23 @@ static int hashmap_add_member(vfc_hashmap_t map, ISize_t key, void *item) {
   }
 
   ii = map->mask & (hashmap_prime_1 * key);
+  ISize_t deleted = map->capacity;
 
-  while (get_value_at(map->items, ii) != 0 &&
-         get_value_at(map->items, ii) != 1) {
-    if (get_value_at(map->items, ii) == value) {
+  while (get_value_at(map->items, ii) != 0) {
+    if (get_value_at(map->items, ii) == 1) {
+      /* first slot that can be reused */
+      if (deleted == map->capacity) {
+        deleted = ii;
+      }
+    } else if (get_value_at(map->items, ii) == value &&
+               get_key_at(map->items, ii) == key) {
       return 0;
-    } else {
-      /* search free slot */
-      ii = map->mask & (ii + hashmap_prime_2);
     }
+    /* search free slot */
+    ii = map->mask & (ii + hashmap_prime_2);
+  }
+  if (deleted != map->capacity) {
+    ii = deleted;
   }
   map->nitems++;
   if (get_value_at(map->items, ii) == 1) {
@@ -186,7 +194,8 @@ void vfc_hashmap_remove(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key &&
+        get_value_at(map->items, ii) != 1) {
       set_value_at(map->items, 1, ii);
       map->nitems--;
       map->n_deleted_items++;
@@ -202,7 +211,8 @@ char vfc_hashmap_have(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key &&
+        get_value_at(map->items, ii) != 1) {
       return 1;
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -216,7 +226,8 @@ void *vfc_hashmap_get(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key &&
+        get_value_at(map->items, ii) != 1) {
       return (void *)get_value_at(map->items, ii);
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -247,6 +258,6 @@ ISize_t vfc_hashmap_str_function(const char *id) {
 // Free the hashmap
 void vfc_hashmap_free(vfc_hashmap_t map) {
   for (ISize_t ii = 0; ii < map->capacity; ii++)
-    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 0)
+    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 1)
       interflop_free((void *)get_value_at(map->items, ii));
 }
\ No newline at end of file
-- 
2.43.0


From 9c33e137f8d573a8794a4ab0ceb16b066af3a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 08/48] fix: short identifiers no longer share a hashmap key

A multiplier smaller than the number of byte values makes strings as short as
two characters collide ("Aa" and "BB"), and keys are the only identity of the
entries: colliding probe and function identifiers were confused.
---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 8c3c291..cf3de9b 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -19,7 +19,7 @@
 
 // #include <stdlib.h>
 
-#define HASH_MULTIPLIER 31
+#define HASH_MULTIPLIER 65599
 static const unsigned int hashmap_prime_1 = 73;
 static const unsigned int hashmap_prime_2 = 5009;
 
-- 
2.43.0


From 62e62ed6e55be1317e0aabd9b781f9742962e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 09/48] fix: the generated delta-debug list replaces the
 previous file

---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 0b51488..c86d323 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -165,7 +165,8 @@ vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
-  int output = open(dd_generate_path, O_WRONLY | O_CREAT, S_IWUSR | S_IRUSR);
+  int output = open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC,
+                    S_IWUSR | S_IRUSR);
   if (output == -1) {
     logger_error("cannot open DDEBUG_GEN file %s", dd_generate_path);
   }
-- 
2.43.0


From 5120a1c8e8ece48641eaaefb9bb6a45644072b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 10/48] fix: the lanes of a vector operation share its call
 site in delta-debug

---
 src/vfcwrapper/main.c.in | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index c86d323..d9f27ff 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -564,9 +564,10 @@ __attribute__((constructor(0))) static void vfc_init(void) {
 #ifdef DDEBUG
 /* When delta-debug run flags are passed, check filter rules,
  *  - exclude rules are applied first and have priority
+ * addr is the call site of the operation, the lanes of a vector operation
+ * share the call site of the vector wrapper
  * */
 #define ddebug(operation)                                                      \
-  void *addr = __builtin_return_address(0);                                    \
   if (dd_exclude_path) {                                                       \
     /* Ignore addr in exclude file */                                          \
     if (vfc_hashmap_have(dd_mustnot_instrument, (size_t)addr)) {               \
@@ -601,7 +602,8 @@ void interflop_call(interflop_call_id id, ...) {
 }
 
 #define define_arithmetic_wrapper(precision, operation, operator)              \
-  precision _##precision##operation(precision a, precision b) {                \
+  static inline precision _##precision##operation##_at(                        \
+      precision a, precision b, __attribute__((unused)) void *addr) {          \
     precision c = NAN;                                                         \
     ddebug(operator);                                                          \
     for (unsigned char i = 0; i < loaded_backends; i++) {                      \
@@ -611,6 +613,9 @@ void interflop_call(interflop_call_id id, ...) {
       }                                                                        \
     }                                                                          \
     return c;                                                                  \
+  }                                                                            \
+  precision _##precision##operation(precision a, precision b) {                \
+    return _##precision##operation##_at(a, b, __builtin_return_address(0));    \
   }
 
 define_arithmetic_wrapper(float, add, (a + b));
@@ -647,9 +652,10 @@ int _doublecmp(enum FCMP_PREDICATE p, double a, double b) {
   precision##size _##size##x##precision##operation(const precision##size a,    \
                                                    const precision##size b) {  \
     precision##size c;                                                         \
+    void *addr = __builtin_return_address(0);                                  \
                                                                                \
     _Pragma("unroll") for (int i = 0; i < size; i++) {                         \
-      c[i] = _##precision##operation(a[i], b[i]);                              \
+      c[i] = _##precision##operation##_at(a[i], b[i], addr);                   \
     }                                                                          \
     return c;                                                                  \
   }
@@ -720,6 +726,7 @@ define_vectorized_comparison_wrapper(double, 16);
 #define define_arithmetic_fma_wrapper(precision)                               \
   precision _##precision##fma(precision a, precision b, precision c) {         \
     precision d = NAN;                                                         \
+    __attribute__((unused)) void *addr = __builtin_return_address(0);          \
     ddebug((a * b + c));                                                       \
     for (unsigned char i = 0; i < loaded_backends; i++) {                      \
       if (backends[i].interflop_fma_##precision) {                             \
-- 
2.43.0


From d0494a4c7ae92696197a962878f05f6d0a30c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:24 +0000
Subject: [PATCH 11/48] fix: every backend gets the arguments of instrumented
 function calls

The backends of a chain read one va_list one after the other, so only the first
one saw the arguments.
---
 src/vfcwrapper/funcinstr.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 41bf805..b24acb0 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -138,17 +138,17 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
   vfc_call_stack_push(function);
 
   if ((useFloat != 0) || (useDouble != 0)) {
-    va_list ap;
     // n is the number of arguments intercepted, each argument
     // is represented by a type ID and a pointer
-    va_start(ap, n);
-
-    for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_enter_function)
+    for (int i = 0; i < loaded_backends; i++) {
+      if (backends[i].interflop_enter_function) {
+        va_list ap;
+        va_start(ap, n);
         backends[i].interflop_enter_function(&_vfc_call_stack, contexts[i], n,
                                              ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
+    }
   }
 }
 
@@ -159,17 +159,17 @@ void vfc_exit_function(__attribute__((unused)) char *func_name,
                        char useFloat, char useDouble, int n, ...) {
 
   if ((useFloat != 0) || (useDouble != 0)) {
-    va_list ap;
     // n is the number of arguments intercepted, each argument
     // is represented by a type ID and a pointer
-    va_start(ap, n);
-
-    for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_exit_function)
+    for (int i = 0; i < loaded_backends; i++) {
+      if (backends[i].interflop_exit_function) {
+        va_list ap;
+        va_start(ap, n);
         backends[i].interflop_exit_function(&_vfc_call_stack, contexts[i], n,
                                             ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
+    }
   }
 
   vfc_call_stack_pop();
-- 
2.43.0


From 4459e4ca234ac7ca375c677120183322e59ebe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:24 +0000
Subject: [PATCH 12/48] fix: infinities and NaNs are recognised by the
 interflop classification functions

---
 src/interflop-stdlib/interflop_stdlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/interflop_stdlib.c b/src/interflop-stdlib/interflop_stdlib.c
index 3b9e312..7db093b 100644
--- a/src/interflop-stdlib/interflop_stdlib.c
+++ b/src/interflop-stdlib/interflop_stdlib.c
@@ -142,9 +142,9 @@ float interflop_fpclassifyf(float x) {
   int mant = u.i & FLOAT_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == FLOAT_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == FLOAT_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
@@ -159,9 +159,9 @@ double interflop_fpclassifyd(double x) {
   long mant = u.i & DOUBLE_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == DOUBLE_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == DOUBLE_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
-- 
2.43.0


From 74ed010e65d4a6d6ba1176139a5c0a95314ffb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:35 +0000
Subject: [PATCH 13/48] fix: all elements of array arguments are rounded and
 profiled by VPREC

Only the first element of an array was rounded, once per element, and the
profile of a first call kept only the last value.
---
 ...interflop_vprec_function_instrumentation.c | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 769d41a..9ff0cc0 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -436,7 +436,7 @@ void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
 }
 
 void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
-                          int new_flag, enum FTYPES type) {
+                          enum FTYPES type) {
 
   int isnan = 0;
   int isinf = 0;
@@ -461,8 +461,8 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
   const int min_range = arg->min_range;
   const int max_range = arg->max_range;
   if (!(isnan || isinf)) {
-    arg->min_range = (floor < min_range || new_flag) ? floor : min_range;
-    arg->max_range = (ceil > max_range || new_flag) ? ceil : max_range;
+    arg->min_range = (floor < min_range) ? floor : min_range;
+    arg->max_range = (ceil > max_range) ? ceil : max_range;
   }
 }
 
@@ -642,7 +642,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
                                 new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
       _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                      exponent_length);
 
@@ -651,7 +651,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_enter(raw_value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
                                 new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
       _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                      exponent_length);
 
@@ -667,9 +667,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -685,9 +685,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -780,7 +780,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
                                new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
 
       _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                      exponent_length);
@@ -789,7 +789,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
                                new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
 
       _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                      exponent_length);
@@ -807,9 +807,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -829,9 +829,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From 59459176f81a24a965f99809541e4cbc64bf6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:35 +0000
Subject: [PATCH 14/48] fix: profiled bounds of values that do not fit an int

---
 ...interflop_vprec_function_instrumentation.c | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 9ff0cc0..af6de03 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -435,34 +435,33 @@ void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              : VPREC_PRECISION_BINARY32_DEFAULT;
 }
 
+/* convert to int, values out of range give the nearest bound */
+static int _vfi_to_int(double x) {
+  if (x >= INT_MAX) {
+    return INT_MAX;
+  } else if (x <= INT_MIN) {
+    return INT_MIN;
+  }
+  return (int)x;
+}
+
 void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
                           enum FTYPES type) {
 
-  int isnan = 0;
-  int isinf = 0;
-  int floor = 0;
-  int ceil = 0;
+  double value = 0;
   if (type == FFLOAT || type == FFLOAT_PTR) {
-    float *value = (float *)raw_value;
-    isnan = interflop_isnan(*value);
-    isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    value = *(float *)raw_value;
   } else if (type == FDOUBLE || type == FDOUBLE_PTR) {
-    double *value = (double *)raw_value;
-    isnan = interflop_isnan(*value);
-    isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    value = *(double *)raw_value;
   } else {
     logger_error("Invalid type\n");
   }
 
-  const int min_range = arg->min_range;
-  const int max_range = arg->max_range;
-  if (!(isnan || isinf)) {
-    arg->min_range = (floor < min_range) ? floor : min_range;
-    arg->max_range = (ceil > max_range) ? ceil : max_range;
+  if (!(interflop_isnan(value) || interflop_isinf(value))) {
+    const int floor = _vfi_to_int(interflop_floor(value));
+    const int ceil = _vfi_to_int(interflop_ceil(value));
+    arg->min_range = (floor < arg->min_range) ? floor : arg->min_range;
+    arg->max_range = (ceil > arg->max_range) ? ceil : arg->max_range;
   }
 }
 
-- 
2.43.0


From 473b272cab4cabbb4ec87235a0a06f1164c4fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:35 +0000
Subject: [PATCH 15/48] fix: VPREC restores the formats in force before an
 instrumented call

When a call returned to the initial caller, to a library function or through a
function without floating-point, the formats of the callee stayed in force.
---
 ...interflop_vprec_function_instrumentation.c | 36 ++++++++++---------
 ...interflop_vprec_function_instrumentation.h | 11 ++++++
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index af6de03..0e8b94f 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -352,6 +352,7 @@ void _vfi_init_context(void *context) {
   ctx->vfi->vprec_log_file = NULL;
   ctx->vfi->vprec_inst_mode = VPREC_INST_MODE_DEFAULT;
   ctx->vfi->vprec_log_depth = 0;
+  ctx->vfi->saved_formats = NULL;
 }
 
 /* initialize the variables to run vprec function instrumentation */
@@ -586,6 +587,15 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
   // increment the number of calls
   function_inst->n_calls++;
 
+  // save the formats in force, they are restored when the call returns
+  _vfi_saved_formats_t *saved = interflop_malloc(sizeof(_vfi_saved_formats_t));
+  saved->OpsRange64 = ctx->binary64_range;
+  saved->OpsPrec64 = ctx->binary64_precision;
+  saved->OpsRange32 = ctx->binary32_range;
+  saved->OpsPrec32 = ctx->binary32_precision;
+  saved->next = ctx->vfi->saved_formats;
+  ctx->vfi->saved_formats = saved;
+
   // set internal operations precision with custom values depending on the mode
   if (!function_info->isLibraryFunction &&
       !function_info->isIntrinsicFunction &&
@@ -716,24 +726,18 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   _vfi_t *function_inst = vfc_hashmap_get(
       ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
 
-  // set internal operations precision with parent function values
-  if (stack->array[stack->top + 1] != NULL) {
-    interflop_function_info_t *parent_info = stack->array[stack->top + 1];
-
-    if (!parent_info->isLibraryFunction && !parent_info->isIntrinsicFunction &&
-        ctx->vfi->vprec_inst_mode != vprecinst_arg &&
+  // restore the formats that were in force before the call
+  _vfi_saved_formats_t *saved = ctx->vfi->saved_formats;
+  if (saved != NULL) {
+    if (ctx->vfi->vprec_inst_mode != vprecinst_arg &&
         ctx->vfi->vprec_inst_mode != vprecinst_none) {
-
-      _vfi_t *function_parent = vfc_hashmap_get(
-          ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
-
-      if (function_parent != NULL) {
-        _set_vprec_precision_binary64(function_parent->OpsPrec64, ctx);
-        _set_vprec_range_binary64(function_parent->OpsRange64, ctx);
-        _set_vprec_precision_binary32(function_parent->OpsPrec32, ctx);
-        _set_vprec_range_binary32(function_parent->OpsRange32, ctx);
-      }
+      _set_vprec_precision_binary64(saved->OpsPrec64, ctx);
+      _set_vprec_range_binary64(saved->OpsRange64, ctx);
+      _set_vprec_precision_binary32(saved->OpsPrec32, ctx);
+      _set_vprec_range_binary32(saved->OpsRange32, ctx);
     }
+    ctx->vfi->saved_formats = saved->next;
+    interflop_free(saved);
   }
 
   // treatment of arguments
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
index 77e8aff..5ebbb6e 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
@@ -85,6 +85,15 @@ typedef struct _vprec_function_instrumentation {
   int n_calls;
 } _vfi_t;
 
+// Precisions and ranges in force when a call was entered
+typedef struct _vprec_saved_formats {
+  int OpsRange64;
+  int OpsPrec64;
+  int OpsRange32;
+  int OpsPrec32;
+  struct _vprec_saved_formats *next;
+} _vfi_saved_formats_t;
+
 /* default instrumentation mode */
 #define VPREC_INST_MODE_DEFAULT vprecinst_none
 
@@ -96,6 +105,8 @@ typedef struct {
   const char *vprec_log_file;
   vprec_inst_mode vprec_inst_mode;
   ISize_t vprec_log_depth;
+  /* formats to restore when the calls in progress return */
+  _vfi_saved_formats_t *saved_formats;
 } t_context_vfi;
 
 /* Setter functions for contextual variables */
-- 
2.43.0


From 7f007bac52bd9f5abc8d9947aaf8bd5c50709116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 16/48] fix: reading VPREC profiles with long identifiers or
 calls that never returned

---
 .../interflop_vprec_function_instrumentation.c         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 0e8b94f..004460d 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -45,7 +45,7 @@ static const char key_input_file_str[] = "prec-input-file";
 static const char key_output_file_str[] = "prec-output-file";
 static const char key_log_file_str[] = "prec-log-file";
 
-#define STRING_BUFF 256
+#define STRING_BUFF FUNCTION_ID_MAX_LENGTH
 #define LINE_MAX_SIZE 2048
 
 #define INIT_STRING(A, N)                                                      \
@@ -217,7 +217,9 @@ long _vfi_scan_int(char *token, const char *field) {
 }
 int _vfi_scan_line(FILE *fi, char **tokens) {
   char line[LINE_MAX_SIZE];
-  interflop_fgets(line, LINE_MAX_SIZE, fi);
+  if (interflop_fgets(line, LINE_MAX_SIZE, fi) == NULL) {
+    return 0;
+  }
   char *tabptr = NULL;
   char *token = interflop_strtok_r(line, "\t", &tabptr);
   int nb_token = 0;
@@ -608,7 +610,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
   }
 
   // treatment of arguments
-  int new_flag = (function_inst->input_args == NULL && nb_args > 0);
+  int new_flag = (function_inst->nb_input_args == 0 && nb_args > 0);
 
   // print function info in log
   _vfi_print_log(ctx, "\n");
@@ -741,7 +743,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   }
 
   // treatment of arguments
-  int new_flag = (function_inst->output_args == NULL && nb_args > 0);
+  int new_flag = (function_inst->nb_output_args == 0 && nb_args > 0);
 
   // print function info in log
   _vfi_print_log(ctx, "exit of %s\t%d\t%d\t%d\t%d\n", function_inst->id,
-- 
2.43.0


From d41ef949058b5567ce29e8cb87b2dde4e276d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 17/48] fix: function instrumentation of functions making
 indirect calls

---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 346e7dd..c32adf4 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -189,6 +189,10 @@ std::string getArgName(Function *F, unsigned int i) {
       if (isa<CallInst>(&I)) {
         CallInst *Call = cast<CallInst>(&I);
 
+        // indirect call
+        if (Call->getCalledFunction() == nullptr)
+          continue;
+
         if (Call->getCalledFunction()->getName() == "llvm.dbg.declare" ||
             Call->getCalledFunction()->getName() == "llvm.dbg.value" ||
             Call->getCalledFunction()->getName() == "llvm.dbg.addr") {
-- 
2.43.0


From 74d24f08fb613bb4fa9f689b4841465451f62168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 18/48] fix: hooks of calls in a shared header no longer clash
 at link time

---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index c32adf4..9e90391 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -601,7 +601,7 @@ struct VfclibFunc : public ModulePass {
                   FunctionType *HookFunTy =
                       FunctionType::get(ReturnTy, CallTypes, false);
                   Function *hook_func = Function::Create(
-                      HookFunTy, Function::ExternalLinkage, NewName, &M);
+                      HookFunTy, Function::InternalLinkage, NewName, &M);
 
                   // Gives to the hook function the calling convention and
                   // attributes of the original function.
-- 
2.43.0


From 7d6fd304972626ea764313ef70708c21877c2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:43 +0000
Subject: [PATCH 19/48] fix: function instrumentation only handles pointers to
 floating-point variables

With opaque pointers every pointer argument was taken for an array of floats,
whatever it points to and wherever in the array it points, and looking for the
size of an array passed on by a function did not terminate.
---
 .../libVFCFuncInstrument.cpp                  | 163 +++++++++---------
 1 file changed, 77 insertions(+), 86 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 9e90391..4ae500c 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -82,8 +82,7 @@ enum FTYPES {
 };
 
 // Types
-llvm::Type *FloatTy, *DoubleTy, *FloatPtrTy, *DoublePtrTy, *Int8Ty, *Int8PtrTy,
-    *Int32Ty;
+llvm::Type *FloatTy, *DoubleTy, *Int8Ty, *Int8PtrTy, *Int32Ty;
 
 // Array of values
 Value *Types2val[] = {
@@ -91,6 +90,58 @@ Value *Types2val[] = {
     [FFLOAT_PTR] = NULL, [FDOUBLE_PTR] = NULL, [FQUAD_PTR] = NULL,
     [FTYPES_END] = NULL};
 
+// Find the type and the number of the floating-point elements accessible
+// through the pointer V, from the local variable it points to. Return
+// FTYPES_END if V does not point to a local variable made of floating-point
+// elements.
+FTYPES getPointedElements(const Value *V, const DataLayout &DL,
+                          unsigned int &size) {
+  size = 0;
+
+  if (!V->getType()->isPointerTy())
+    return FTYPES_END;
+
+  APInt Offset(DL.getIndexTypeSizeInBits(V->getType()), 0);
+  const Value *Base = V->stripAndAccumulateConstantOffsets(DL, Offset, true);
+  const AllocaInst *Alloca = dyn_cast<AllocaInst>(Base);
+  if (Alloca == nullptr || Alloca->isArrayAllocation())
+    return FTYPES_END;
+
+  Type *EltTy = Alloca->getAllocatedType();
+  while (EltTy->isArrayTy())
+    EltTy = EltTy->getArrayElementType();
+  if (EltTy != FloatTy && EltTy != DoubleTy)
+    return FTYPES_END;
+
+  const int64_t EltSize = EltTy == FloatTy ? sizeof(float) : sizeof(double);
+  const int64_t TotalSize = static_cast<int64_t>(
+      DL.getTypeAllocSize(Alloca->getAllocatedType()));
+  const int64_t Start = Offset.getSExtValue();
+  if (Start < 0 || Start > TotalSize || Start % EltSize != 0)
+    return FTYPES_END;
+
+  size = (TotalSize - Start) / EltSize;
+  return EltTy == FloatTy ? FFLOAT_PTR : FDOUBLE_PTR;
+}
+
+// Type of the i-th argument of a call, the size is the number of elements it
+// gives access to
+FTYPES getArgType(const Type *argTy, const CallInst *call, unsigned int i,
+                  const DataLayout &DL, unsigned int &size) {
+  size = 1;
+  if (argTy == FloatTy)
+    return FFLOAT;
+  if (argTy == DoubleTy)
+    return FDOUBLE;
+  if (call == nullptr)
+    return FTYPES_END;
+  return getPointedElements(call->getArgOperand(i), DL, size);
+}
+
+bool isPointerType(FTYPES type) {
+  return type == FFLOAT_PTR || type == FDOUBLE_PTR;
+}
+
 // Fill use_double and use_float with true if the call_inst pi use at least
 // of the managed types
 void haveFloatingPointArithmetic(Instruction *call, Function *f,
@@ -133,55 +184,20 @@ void haveFloatingPointArithmetic(Instruction *call, Function *f,
     }
   } else if (call != NULL) {
     // Loop over arguments types
-    for (auto it = call->op_begin(); it < call->op_end() - 1; it++) {
-      if ((*it)->getType() == FloatTy || (*it)->getType() == FloatPtrTy)
+    const DataLayout &DL = call->getModule()->getDataLayout();
+    const CallInst *CI = cast<CallInst>(call);
+    for (unsigned int i = 0; i < CI->arg_size(); i++) {
+      unsigned int size;
+      FTYPES type =
+          getArgType(CI->getArgOperand(i)->getType(), CI, i, DL, size);
+      if (type == FFLOAT || type == FFLOAT_PTR)
         (*use_float) = true;
-      if ((*it)->getType() == DoubleTy || (*it)->getType() == DoublePtrTy)
+      if (type == FDOUBLE || type == FDOUBLE_PTR)
         (*use_double) = true;
     }
   }
 }
 
-// Search the size of the Value V which is a pointer
-unsigned int getSizeOf(Value *V, const Function *F) {
-  // if V is an argument of the F function, search the size of V in the parent
-  // of F
-  for (auto &Args : F->args()) {
-    if (&Args == V) {
-      for (const auto &U : V->users()) {
-        if (isa<CallInst>(U)) {
-          const CallInst *call = cast<CallInst>(U);
-          Value *to_search = call->getOperand(Args.getArgNo());
-
-          return getSizeOf(to_search, call->getParent()->getParent());
-        }
-      }
-    }
-  }
-
-  // search for the AllocaInst at the origin of V
-  for (auto &BB : (*F)) {
-    for (auto &I : BB) {
-      if (&I == V) {
-        if (const AllocaInst *Alloca = dyn_cast<AllocaInst>(&I)) {
-          if (Alloca->getAllocatedType()->isArrayTy() ||
-              Alloca->getAllocatedType()->isVectorTy()) {
-            return Alloca->getAllocatedType()->getArrayNumElements();
-          } else {
-            return 1;
-          }
-        } else if (const GetElementPtrInst *GEP =
-                       dyn_cast<GetElementPtrInst>(&I)) {
-          Value *to_search = GEP->getOperand(0);
-          return getSizeOf(to_search, F);
-        }
-      }
-    }
-  }
-
-  return 0;
-}
-
 // Get the Name of the given argument V
 std::string getArgName(Function *F, unsigned int i) {
   for (auto &BB : (*F)) {
@@ -221,43 +237,34 @@ void allocateMemoryForPointers(Function *CurrentFunction,
   if (RetTy == DoubleTy or RetTy == FloatTy) {
     OutputAlloca.push_back(Builder.CreateAlloca(RetTy, nullptr));
     output_cpt++;
-  } else if ((RetTy == FloatPtrTy or RetTy == DoublePtrTy) and call) {
-    output_cpt++;
   }
 
   for (auto &args : CurrentFunction->args()) {
     Type *argTy = args.getType();
+    unsigned int size;
+    FTYPES type =
+        getArgType(argTy, call, args.getArgNo(), M.getDataLayout(), size);
     if (argTy == DoubleTy or argTy == FloatTy) {
       InputAlloca.push_back(Builder.CreateAlloca(argTy, nullptr));
       input_cpt++;
-    } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
+    } else if (isPointerType(type)) {
       input_cpt++;
       output_cpt++;
     }
   }
 };
 
-FTYPES ftypesFromType(Type *Ty) {
-  if (Ty == FloatTy)
-    return FFLOAT;
-  if (Ty == DoubleTy)
-    return FDOUBLE;
-  if (Ty == FloatPtrTy)
-    return FFLOAT_PTR;
-  if (Ty == DoublePtrTy)
-    return FDOUBLE_PTR;
-  return FTYPES_END;
-}
-
 void initializeInputArgs(std::vector<Value *> &EnterArgs,
                          std::vector<Value *> &InputMetaData,
                          Function *CurrentFunction, Function *HookedFunction,
                          const CallInst *call, IRBuilder<> &Builder,
-                         std::vector<Value *> &InputAlloca) {
+                         std::vector<Value *> &InputAlloca, Module &M) {
   size_t input_index = 0;
   for (auto &args : CurrentFunction->args()) {
     Type *argTy = args.getType();
-    FTYPES type = ftypesFromType(argTy);
+    unsigned int size;
+    FTYPES type =
+        getArgType(argTy, call, args.getArgNo(), M.getDataLayout(), size);
 
     if (type != FTYPES_END) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
@@ -269,9 +276,7 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
       EnterArgs.push_back(ConstantInt::get(Int32Ty, 1));
       EnterArgs.push_back(InputAlloca[input_index]);
       Builder.CreateStore(&args, InputAlloca[input_index++]);
-    } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
+    } else if (isPointerType(type)) {
       EnterArgs.push_back(ConstantInt::get(Int32Ty, size));
       EnterArgs.push_back(&args);
     }
@@ -285,33 +290,23 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
                           std::vector<Value *> &OutputAlloca, Module &M) {
 
   Type *retTy = ret->getType();
-  FTYPES type = ftypesFromType(retTy);
-
-  if (type != FTYPES_END) {
-    ExitArgs.push_back(Types2val[type]);
-    ExitArgs.push_back(Builder.CreateGlobalStringPtr("return_value"));
-  }
 
   if (retTy == FloatTy or retTy == DoubleTy) {
+    ExitArgs.push_back(Types2val[retTy == FloatTy ? FFLOAT : FDOUBLE]);
+    ExitArgs.push_back(Builder.CreateGlobalStringPtr("return_value"));
     ExitArgs.push_back(ConstantInt::get(Int32Ty, 1));
     ExitArgs.push_back(OutputAlloca[0]);
     Builder.CreateStore(ret, OutputAlloca[0]);
-  } else if ((retTy == FloatPtrTy or retTy == DoublePtrTy) and
-             call != nullptr) {
-    unsigned int size = getSizeOf(ret, call->getParent()->getParent());
-    ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
-    ExitArgs.push_back(ret);
   }
 
   for (auto &args : CurrentFunction->args()) {
-    Type *argTy = args.getType();
-    type = ftypesFromType(argTy);
-    if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call != nullptr) {
+    unsigned int size;
+    FTYPES type = getArgType(args.getType(), call, args.getArgNo(),
+                             M.getDataLayout(), size);
+    if (isPointerType(type)) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
       ExitArgs.push_back(Types2val[type]);
       ExitArgs.push_back(Builder.CreateGlobalStringPtr(arg_name));
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
       ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
       ExitArgs.push_back(&args);
     }
@@ -341,7 +336,7 @@ void InstrumentFunction(std::vector<Value *> MetaData,
   // address to the list of parameters sent to vfc_enter for processing.
   std::vector<Value *> EnterArgs = InputMetaData;
   initializeInputArgs(EnterArgs, InputMetaData, CurrentFunction, HookedFunction,
-                      call, Builder, InputAlloca);
+                      call, Builder, InputAlloca, M);
 
   // Step 3: call vfc_enter
   Builder.CreateCall(func_enter, EnterArgs);
@@ -425,12 +420,8 @@ struct VfclibFunc : public ModulePass {
     Int8Ty = Type::getInt8Ty(M.getContext());
     Int32Ty = Type::getInt32Ty(M.getContext());
 #if LLVM_VERSION_MAJOR < 20
-    FloatPtrTy = FloatTy->getPointerTo();
-    DoublePtrTy = DoubleTy->getPointerTo();
     Int8PtrTy = Int8Ty->getPointerTo();
 #else
-    FloatPtrTy = PointerType::getUnqual(FloatTy);
-    DoublePtrTy = PointerType::getUnqual(DoubleTy);
     Int8PtrTy = PointerType::getUnqual(Int8Ty);
 #endif
 
-- 
2.43.0


From 6c4d26725f292ebb7cdd441a40d7a892e9d0299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:17 +0000
Subject: [PATCH 20/48] fix: function instrumentation leaves calls alone that
 cannot be moved to a hook

Initialising an array (llvm.memcpy), for instance, produced invalid code.
---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 4ae500c..1ebd6b5 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -399,6 +399,17 @@ bool isLLVMDebugFunction(Function &F) {
   return STARTS_WITH(name, "llvm.dbg.") || STARTS_WITH(name, "llvm.lifetime.");
 }
 
+// Some calls cannot be moved to a hook function: arguments that must be
+// constants or metadata cannot be forwarded, and functions that return twice
+// need the frame of their caller.
+bool canBeHooked(const Function &F) {
+  for (const auto &Arg : F.args()) {
+    if (Arg.hasAttribute(Attribute::ImmArg) || Arg.getType()->isMetadataTy())
+      return false;
+  }
+  return !F.hasFnAttribute(Attribute::ReturnsTwice);
+}
+
 struct VfclibFunc : public ModulePass {
   static char ID;
   std::vector<Function *> OriginalFunctions;
@@ -524,7 +535,7 @@ struct VfclibFunc : public ModulePass {
             if (isa<CallInst>(pi)) {
               // collect metadata info //
               if (Function *f = cast<CallInst>(pi)->getCalledFunction()) {
-                if (isLLVMDebugFunction(*f)) {
+                if (isLLVMDebugFunction(*f) || !canBeHooked(*f)) {
                   continue;
                 }
 
-- 
2.43.0


From a1cd9f6406d22ff6fcc291e911fe9460ecdec652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:11 +0000
Subject: [PATCH 21/48] fix: mcaquad noise of a null draw or out-of-range
 exponent

The exponent field of the noise was computed without checking that the
draw is not zero and that the result fits in the field: a draw of exactly
0.5, or a virtual precision or absolute error exponent out of the range of
the wider type, gave an arbitrary (possibly infinite) noise.
---
 .../interflop-backend-mcaquad/interflop_mca.c | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b48f3e9..8d997a5 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -266,31 +266,39 @@ static const char *_get_error_mode_str(mcaquad_context_t *ctx) {
 }
 
 /* noise = rand * 2^(exp) */
-/* We can skip special cases since we never meet them */
-/* Since we have exponent of float values, the result */
-/* is comprised between: */
-/* 127+127 = 254 < DOUBLE_EXP_MAX (1023)  */
-/* -126-24+-126-24 = -300 > DOUBLE_EXP_MIN (-1022) */
+/* A null draw, or an exponent too small for the type, gives no noise; */
+/* an exponent too large for the type gives an infinite noise */
 double _noise_binary64(int exp, rng_state_t *rng_state);
 inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent = b64.ieee.exponent + exp;
+  const int64_t e_noise = (int64_t)b64.ieee.exponent + exp;
+  if (d_rand == 0 || e_noise <= 0) {
+    return 0;
+  }
+  if (e_noise >= DOUBLE_EXP_INF) {
+    return d_rand < 0 ? -INFINITY : INFINITY;
+  }
+  b64.ieee.exponent = e_noise;
   return b64.f64;
 }
 
 /* noise = rand * 2^(exp) */
-/* We can skip special cases since we never met them */
-/* Since we have exponent of double values, the result */
-/* is comprised between: */
-/* 1023+1023 = 2046 < QUAD_EXP_MAX (16383)  */
-/* -1022-53+-1022-53 = -2200 > QUAD_EXP_MIN (-16382) */
+/* A null draw, or an exponent too small for the type, gives no noise; */
+/* an exponent too large for the type gives an infinite noise */
 _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
   /* random number in (-0.5, 0.5) */
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
   binary128 b128 = {.f128 = noise};
-  b128.ieee128.exponent = b128.ieee128.exponent + exp;
+  const int64_t e_noise = (int64_t)b128.ieee128.exponent + exp;
+  if (noise == 0 || e_noise <= 0) {
+    return 0;
+  }
+  if (e_noise >= QUAD_EXP_INF) {
+    return noise < 0 ? -INFINITY : INFINITY;
+  }
+  b128.ieee128.exponent = e_noise;
   return b128.f128;
 }
 
-- 
2.43.0


From f37f3d7385dfad486cff41cd06fb658b6d90a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:11 +0000
Subject: [PATCH 22/48] fix: cancellation noise of a null draw or total
 cancellation

The exponent field of the noise wrapped around when the noise is too small
to be represented: 1.0 - 1.0 gave values of the order of 1.
---
 .../interflop_cancellation.c                               | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index aed1ac1..3368960 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -109,10 +109,15 @@ void cancellation_push_seed(uint64_t seed) {
 void cancellation_pop_seed() { rng_state = __rng_state; }
 
 /* noise = rand * 2^(exp) */
+/* A null draw, or an exponent too small for the type, gives no noise */
 static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent += exp;
+  const int e_noise = (int)b64.ieee.exponent + exp;
+  if (d_rand == 0 || e_noise <= 0) {
+    return 0;
+  }
+  b64.ieee.exponent = e_noise;
   return b64.f64;
 }
 
-- 
2.43.0


From b942c3cd5a7e6732e0ed4d7829a173b87a6e85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:11 +0000
Subject: [PATCH 23/48] fix: flush subnormal results of casts with --ftz

The flush was decided on the binary64 value, not on the binary32 result of
the conversion.
---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 4 ++++
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 4 ++++
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 28d1160..6a73b8b 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -515,6 +515,10 @@ void INTERFLOP_BITMASK_API(fma_double)(double a, double b, double c,
 void INTERFLOP_BITMASK_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
   *res = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  /* the result is a binary32 value */
+  if (((bitmask_context_t *)context)->ftz) {
+    *res = FTZ(*res);
+  }
 }
 
 const char *INTERFLOP_BITMASK_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f490a2d..b5d53a4 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -573,6 +573,10 @@ void INTERFLOP_MCAINT_API(fma_double)(double a, double b, double c, double *res,
 void INTERFLOP_MCAINT_API(cast_double_to_float)(double a, float *res,
                                                 void *context) {
   *res = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  /* the result is a binary32 value */
+  if (((mcaint_context_t *)context)->ftz) {
+    *res = FTZ(*res);
+  }
 }
 
 const char *INTERFLOP_MCAINT_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 8d997a5..2599921 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -651,6 +651,10 @@ void INTERFLOP_MCAQUAD_API(fma_double)(double a, double b, double c,
 void INTERFLOP_MCAQUAD_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
   *res = _mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  /* the result is a binary32 value */
+  if (((mcaquad_context_t *)context)->ftz) {
+    *res = FTZ(*res);
+  }
 }
 
 void _interflop_usercall_inexact(void *context, va_list ap) {
-- 
2.43.0


From 29f0fccc22b695f232875f16e3398789ee34cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:16 +0000
Subject: [PATCH 24/48] fix: threads without a fixed seed could draw the same
 stream

The seed was the exclusive or of the time and of the thread identifier:
threads started one microsecond apart with consecutive identifiers often
had the same seed (a third of the runs with eight threads).
---
 src/interflop-stdlib/rng/vfc_rng.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interflop-stdlib/rng/vfc_rng.c b/src/interflop-stdlib/rng/vfc_rng.c
index c414a45..91f7333 100644
--- a/src/interflop-stdlib/rng/vfc_rng.c
+++ b/src/interflop-stdlib/rng/vfc_rng.c
@@ -46,7 +46,11 @@ static void _set_seed(rng_state_t *random_state, const bool choose_seed,
     struct timeval t1;
     interflop_gettimeofday(&t1, NULL);
     /* Hopefully the following seed is good enough for Montercarlo */
-    random_state->seed = t1.tv_sec ^ t1.tv_usec ^ interflop_gettid();
+    /* The time is hashed: threads started together have close times and close
+     * thread identifiers, whose bits must not cancel each other out */
+    random_state->seed =
+        next_seed((uint64_t)t1.tv_sec * 1000000 + (uint64_t)t1.tv_usec) ^
+        (uint64_t)interflop_gettid();
   }
   random_state->random_state[0] = next_seed(random_state->seed);
   random_state->random_state[1] = next_seed(random_state->seed);
-- 
2.43.0


From e8467b5fb61ce5db984855549391d5a61b1fb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:55 +0000
Subject: [PATCH 25/48] fix: delta-debug judges all the samples run in parallel

---
 src/tools/ddebug/DD_stoch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 7b7c2e5..9f45d4f 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -140,11 +140,11 @@ class InterflopTask:
         for run in workToDo:
             self.mkdir(run)
             self.runOneSample(run)
-        for run in workToDo:
-            retVal = self.cmpOneSample(run)
+        # all the samples run: judge each of them, the cache keeps the verdicts
+        retVals = [self.cmpOneSample(run) for run in workToDo]
 
-            if retVal == "FAIL":
-                return self.FAIL
+        if self.FAIL in retVals:
+            return self.FAIL
 
         return self.PASS
 
-- 
2.43.0


From 880aff2f374d429690e7e70d95576af7805e6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:55 +0000
Subject: [PATCH 26/48] fix: delta-debug resumes an interrupted search

---
 src/tools/ddebug/DD_stoch.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 9f45d4f..8451444 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -95,8 +95,13 @@ class InterflopTask:
             self.dirname) if runDir.startswith("dd.run")]
         done = []
         for runDir in listOfDir:
-            status = int(
-                (open(os.path.join(self.dirname, runDir, "returnVal")).readline()))
+            try:
+                with open(os.path.join(self.dirname, runDir, "returnVal")) as f:
+                    status = int(f.readline())
+            except (OSError, ValueError):
+                # sample of an interrupted search, has to be run again
+                shutil.rmtree(os.path.join(self.dirname, runDir))
+                continue
             if status != 0:
                 return None
             done += [runDir]
@@ -548,10 +553,10 @@ class DDStoch(DD.DD):
             nbRun = self.config_.get_nbRUN()
 
         dirname = os.path.join(self.prefix_, md5Name(deltas))
-        if not os.path.exists(dirname):
-            os.makedirs(dirname)
-            self.genExcludeIncludeFile(
-                dirname, deltas, include=True, exclude=True)
+        # an interrupted search may have left incomplete files
+        os.makedirs(dirname, exist_ok=True)
+        self.genExcludeIncludeFile(
+            dirname, deltas, include=True, exclude=True)
 
         vT = InterflopTask(dirname, self.ref_, self.run_, self.compare_,
                            nbRun, self.config_.get_maxNbPROC(), self.sampleRunEnv(dirname))
-- 
2.43.0


From 503816f8d5a94e2df020366ddebca42d18f851d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:55 +0000
Subject: [PATCH 27/48] fix: delta-debug accepts an integer DD_DICHO_TAB

---
 src/tools/ddebug/dd_config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/dd_config.py b/src/tools/ddebug/dd_config.py
index 6424bbe..f6f7b55 100644
--- a/src/tools/ddebug/dd_config.py
+++ b/src/tools/ddebug/dd_config.py
@@ -93,7 +93,7 @@ class ddConfig:
         )
         self.readOneOption(
             "param_dicho_tab",
-            "int/string",
+            "string/int",
             "DD_DICHO_TAB",
             ["exp", "all", "half", "single"],
         )
@@ -119,8 +119,8 @@ class ddConfig:
                     exec("self." + attribut + "= value")
                 elif conv_type == "string/int":
                     try:
-                        exec("self." + attribut + "= int(value)")
-                    except Exception:
+                        value = int(value)
+                    except ValueError:
                         print(
                             "Error : "
                             + self.PREFIX
@@ -130,6 +130,7 @@ class ddConfig:
                             + str(acceptedValue)
                             + " or be a int value"
                         )
+                        self.failure()
                 else:
                     print(
                         "Error : "
@@ -187,7 +188,7 @@ class ddConfig:
             splitTab = [self.nbRUN]
         if self.param_dicho_tab == "half":
             splitTab = [int(math.ceil(self.nbRUN / 2.0))]
-        if self.param_dicho_tab in [str(i) for i in range(1, self.nbRUN + 1)]:
+        if self.param_dicho_tab in range(1, self.nbRUN + 1):
             splitTab = [self.param_dicho_tab]
         return splitTab
 
-- 
2.43.0


From f1e8f7fbb4569421d4bd09f08926d7b65e224ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:54 +0000
Subject: [PATCH 28/48] fix: delta-debug reports single sites the dichotomy did
 not cut

---
 src/tools/ddebug/DD_stoch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 8451444..aac104e 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -183,6 +183,7 @@ class DDStoch(DD.DD):
         self.compare_ = self.config_.get_cmpScript()
         self.cache_outcomes = False
         self.index = 0
+        self.found = []
         self.prefix_ = os.path.join(os.getcwd(), prefix)
         self.ref_ = os.path.join(self.prefix_, "ref")
 
@@ -244,6 +245,7 @@ class DDStoch(DD.DD):
     def configuration_found(self, kind_str, delta_config, verbose=True):
         if verbose:
             print("%s (%s):" % (kind_str, self.coerce(delta_config)))
+        self.found.append(delta_config)
         self.testWithLink(delta_config, kind_str)
 
     def run(self, deltas=None):
@@ -432,6 +434,9 @@ class DDStoch(DD.DD):
         res = []
         for candidat in candidats:
             if len(candidat) == 1:  # is a valid ddmin
+                if candidat not in self.found:  # the split did not cut it
+                    self.configuration_found("ddmin%d" % (self.index), candidat)
+                    self.index += 1
                 res += [candidat]
                 deltas = [delta for delta in deltas if delta not in candidat]
             else:
-- 
2.43.0


From 26be8c7e8a32aa74519d2d85011bba2021adbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:35 +0000
Subject: [PATCH 29/48] fix: the precision search ends when no precision is
 accepted

---
 src/tools/optimize/precexp.py | 6 ++++++
 src/tools/vfc_precexp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 3dae93c..2f7cadb 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -368,6 +368,9 @@ def dich_search_operations(
                     flag = 0
                     break
                 r = p
+            elif l >= r:
+                # no value is accepted, keep the full precision
+                flag = 0
             else:
                 l = p + 1
 
@@ -505,6 +508,9 @@ def dich_search_arguments(
                     flag = 0
                     break
                 r = p
+            elif l >= r:
+                # no value is accepted, keep the full precision
+                flag = 0
             else:
                 l = p + 1
 
diff --git a/src/tools/vfc_precexp b/src/tools/vfc_precexp
index cee65a5..c0b3316 100755
--- a/src/tools/vfc_precexp
+++ b/src/tools/vfc_precexp
@@ -365,6 +365,9 @@ def dich_search_operations(
                     flag = 0
                     break
                 r = p
+            elif l >= r:
+                # no value is accepted, keep the full precision
+                flag = 0
             else:
                 l = p + 1
 
@@ -502,6 +505,9 @@ def dich_search_arguments(
                     flag = 0
                     break
                 r = p
+            elif l >= r:
+                # no value is accepted, keep the full precision
+                flag = 0
             else:
                 l = p + 1
 
-- 
2.43.0


From 3fe974c5b1ee4a95e0c76f834d0900ef30cdcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:35 +0000
Subject: [PATCH 30/48] fix: the precision search knows the types of pointer
 arguments

---
 src/tools/optimize/precexp.py | 4 ++--
 src/tools/vfc_precexp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 2f7cadb..575d6ae 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -529,7 +529,7 @@ def search_minimum_arguments(
     """Find the minimum precision for a given argument of a function"""
 
     # If is a float or float ptr
-    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 2:
+    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 3:
         # minimize mantissa
         dich_search_arguments(
             index,
@@ -562,7 +562,7 @@ def search_minimum_arguments(
         )
 
     # If is a double or double ptr
-    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 3:
+    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 4:
         # minimize mantissa
         dich_search_arguments(
             index,
diff --git a/src/tools/vfc_precexp b/src/tools/vfc_precexp
index c0b3316..3bb04ed 100755
--- a/src/tools/vfc_precexp
+++ b/src/tools/vfc_precexp
@@ -526,7 +526,7 @@ def search_minimum_arguments(
     """Find the minimum precision for a given argument of a function"""
 
     # If is a float or float ptr
-    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 2:
+    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 3:
         # minimize mantissa
         dich_search_arguments(
             index,
@@ -559,7 +559,7 @@ def search_minimum_arguments(
         )
 
     # If is a double or double ptr
-    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 3:
+    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 4:
         # minimize mantissa
         dich_search_arguments(
             index,
-- 
2.43.0


From 2605c8d0f18bfda4f205962272cef19c23c113ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:53 +0000
Subject: [PATCH 31/48] fix: the precision search does not block on scripts
 that print much

---
 src/tools/optimize/precexp.py | 2 +-
 src/tools/vfc_precexp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 575d6ae..34ec62f 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -55,7 +55,7 @@ def shell(cmd, newEnv, maxTimeout=None):
     for cmdEntry in cmdSplit:
         cmdNew = cmdNew + " " + cmdEntry.strip()
 
-    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.PIPE, env=env)
+    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
         proc.wait(maxTimeout)
diff --git a/src/tools/vfc_precexp b/src/tools/vfc_precexp
index 3bb04ed..af30f9c 100755
--- a/src/tools/vfc_precexp
+++ b/src/tools/vfc_precexp
@@ -54,7 +54,7 @@ def shell(cmd, newEnv, maxTimeout=None):
     for cmdEntry in cmdSplit:
         cmdNew = cmdNew + " " + cmdEntry.strip()
 
-    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.PIPE, env=env)
+    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
         proc.wait(maxTimeout)
-- 
2.43.0


From ccb5fd26161c33853068e01bc657c8c1085c4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:53 +0000
Subject: [PATCH 32/48] fix: --maxTimeout of the precision search is taken into
 account, in milliseconds

---
 src/tools/optimize/precexp.py | 6 +++++-
 src/tools/vfc_precexp         | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 34ec62f..51c596c 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -58,9 +58,11 @@ def shell(cmd, newEnv, maxTimeout=None):
     proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
-        proc.wait(maxTimeout)
+        # the timeout is given in milliseconds
+        proc.wait(None if maxTimeout is None else maxTimeout / 1000)
     except subprocess.TimeoutExpired:
         proc.terminate()
+        proc.wait()
         return 42
 
     return proc.returncode
@@ -596,6 +598,8 @@ def search_minimum_arguments(
 
 
 def main():
+    global vfc_maxTimeout
+
     parser = argparse.ArgumentParser(
         description="The vfc_precexp script tries "
         "to minimize the precision for each function "
diff --git a/src/tools/vfc_precexp b/src/tools/vfc_precexp
index af30f9c..b44f3a5 100755
--- a/src/tools/vfc_precexp
+++ b/src/tools/vfc_precexp
@@ -57,9 +57,11 @@ def shell(cmd, newEnv, maxTimeout=None):
     proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
-        proc.wait(maxTimeout)
+        # the timeout is given in milliseconds
+        proc.wait(None if maxTimeout is None else maxTimeout / 1000)
     except subprocess.TimeoutExpired:
         proc.terminate()
+        proc.wait()
         return 42
 
     return proc.returncode
-- 
2.43.0


From 230c8edcd1002f4cc8866c32bd712777c52f639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:12 +0000
Subject: [PATCH 33/48] fix: vfc_ci reads the names and values of probes as
 they were dumped

---
 src/tools/ci/test.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 75aa76c..c65a100 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -22,6 +22,7 @@
 # It will also generate a ... .vfcrunh5 file with the results of the run
 
 import calendar
+import csv
 import json
 import os
 
@@ -53,7 +54,10 @@ def read_probes_csv(filepath, warnings, execution_data):
     """Read a CSV file outputted by vfc_probe as a Pandas dataframe"""
 
     try:
-        results = pd.read_csv(filepath)
+        # Names and hexadecimal values are read as they are
+        results = pd.read_csv(
+            filepath, dtype=str, keep_default_na=False, quoting=csv.QUOTE_NONE
+        )
 
     except FileNotFoundError:
         print(
-- 
2.43.0


From d17d51add859ddad556535fb3c33681fef75a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:12 +0000
Subject: [PATCH 34/48] fix: vfc_ci evaluates the checks of deterministic
 backends whatever their thresholds

---
 src/tools/ci/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index c65a100..98eb055 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -254,7 +254,7 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
     run_data["check_mode"] = run_checks_data["check_mode"]
 
     # If checks are detected, do a reference run (with IEEE backend)
-    if run_data["accuracy_threshold"].sum() != 0:
+    if (run_data["check_mode"] != "none").any():
         temp.close()
 
         os.putenv("VFC_BACKENDS", "libinterflop_ieee.so")
-- 
2.43.0


From 900998a383b03165b12750131c782b474ca209e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:12 +0000
Subject: [PATCH 35/48] fix: vfc_ci compares a probe with its own reference
 value

---
 src/tools/ci/test.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 98eb055..d54d0f1 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -278,7 +278,13 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
 
         reference_run_data = read_probes_csv(temp.name, warnings, execution_data)[0]
 
-        run_data["reference_value"] = reference_run_data["values"]
+        run_data = run_data.merge(
+            reference_run_data[["test", "variable", "values"]].rename(
+                columns={"values": "reference_value"}
+            ),
+            how="left",
+            on=["test", "variable"],
+        )
         run_data["check"] = run_data.apply(
             lambda x: validate_deterministic_probe(x), axis=1
         )
-- 
2.43.0


From f8b92b2763e7c62724a6fba3aef619c637e8f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 36/48] fix: warnings obey the settings of the logger

---
 src/interflop-stdlib/iostream/logger.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/interflop-stdlib/iostream/logger.c b/src/interflop-stdlib/iostream/logger.c
index 7088e6e..5986680 100644
--- a/src/interflop-stdlib/iostream/logger.c
+++ b/src/interflop-stdlib/iostream/logger.c
@@ -241,11 +241,11 @@ void logger_info(const char *fmt, ...) {
 void logger_warning(const char *fmt, ...) {
   if (logger_enabled && logger_level <= logger_level_warning) {
     logger_header(logger_stderr, "Warning", warning_color, logger_colored);
+    va_list ap;
+    va_start(ap, fmt);
+    interflop_vwarnx(fmt, ap);
+    va_end(ap);
   }
-  va_list ap;
-  va_start(ap, fmt);
-  interflop_vwarnx(fmt, ap);
-  va_end(ap);
 }
 
 /* Display the error message */
@@ -279,8 +279,8 @@ void vlogger_info(const char *fmt, va_list argp) {
 void vlogger_warning(const char *fmt, va_list argp) {
   if (logger_enabled && logger_level <= logger_level_warning) {
     logger_header(logger_stderr, "Warning", warning_color, logger_colored);
+    interflop_vwarnx(fmt, argp);
   }
-  interflop_vwarnx(fmt, argp);
 }
 
 /* Display the error message */
-- 
2.43.0


From b55ae4d5635d260f329437b7f7643cef0418fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:25 +0000
Subject: [PATCH 37/48] fix: the mca_int backend obeys VFC_BACKENDS_SILENT_LOAD

---
 .../interflop-backend-mcaint/interflop_mca_int.c       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index b5d53a4..21e7db1 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -770,6 +770,16 @@ void INTERFLOP_MCAINT_API(configure)(void *configure, void *context) {
 }
 
 static void print_information_header(void *context) {
+  /* Environnement variable to disable loading message */
+  char *silent_load_env = interflop_getenv("VFC_BACKENDS_SILENT_LOAD");
+  bool silent_load = ((silent_load_env == NULL) ||
+                      (interflop_strcasecmp(silent_load_env, "True") != 0))
+                         ? false
+                         : true;
+
+  if (silent_load)
+    return;
+
   mcaint_context_t *ctx = (mcaint_context_t *)context;
 
   logger_info("load backend with:\n");
-- 
2.43.0


From fcf591218692994d09e7bc96ed5c3814f42f512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:12 +0000
Subject: [PATCH 38/48] fix: the precision search writes configurations that
 the vprec backend reads

The argument lines lacked the bounds of the values; the backend refused every
configuration with arguments ("Can't read input arguments"), so that all runs
failed and everything was left at full precision.
---
 src/tools/optimize/precexp.py | 4 +++-
 src/tools/vfc_precexp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 51c596c..dab49bf 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -288,12 +288,14 @@ def save(Arguments, Operations, File):
             j < arg_index + Operations.at[i, "Ninputs"] + Operations.at[i, "Noutputs"]
         ):
             f.write(
-                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\n".format(
+                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\t{Min}\t{Max}\n".format(
                     IO=Arguments.at[j, "IO"],
                     ArgID=Arguments.at[j, "ArgID"],
                     Type=Arguments.at[j, "Type"],
                     Prec=Arguments.at[j, "Prec"],
                     Range=Arguments.at[j, "Range"],
+                    Min=Arguments.at[j, "Min"],
+                    Max=Arguments.at[j, "Max"],
                 )
             )
             j = j + 1
diff --git a/src/tools/vfc_precexp b/src/tools/vfc_precexp
index b44f3a5..294cc3e 100755
--- a/src/tools/vfc_precexp
+++ b/src/tools/vfc_precexp
@@ -287,12 +287,14 @@ def save(Arguments, Operations, File):
             j < arg_index + Operations.at[i, "Ninputs"] + Operations.at[i, "Noutputs"]
         ):
             f.write(
-                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\n".format(
+                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\t{Min}\t{Max}\n".format(
                     IO=Arguments.at[j, "IO"],
                     ArgID=Arguments.at[j, "ArgID"],
                     Type=Arguments.at[j, "Type"],
                     Prec=Arguments.at[j, "Prec"],
                     Range=Arguments.at[j, "Range"],
+                    Min=Arguments.at[j, "Min"],
+                    Max=Arguments.at[j, "Max"],
                 )
             )
             j = j + 1
-- 
2.43.0


From 6ee1e4d0f084d9ff29a08ca69060adf6135a7604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:41 +0000
Subject: [PATCH 39/48] fix: the precision search runs the vprec mode it offers
 as all

The backend has no mode called all (it is full) and refused to start.
---
 src/tools/optimize/precexp.py | 5 ++++-
 src/tools/vfc_precexp         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index dab49bf..5da4b35 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -624,7 +624,7 @@ def main():
     )
     parser.add_argument(
         "--vprec_mode",
-        choices=["ieee", "ib", "ob", "all"],
+        choices=["ieee", "ib", "ob", "full", "all"],
         default="ob",
         help="vprec operating mode",
     )
@@ -639,6 +639,9 @@ def main():
     cmpPath = args[0].cmpPath
 
     vfc_vprec_mode = args[0].vprec_mode
+    if vfc_vprec_mode == "all":
+        # the backend calls this mode full
+        vfc_vprec_mode = "full"
     vfc_mode = args[0].mode
     if args[0].maxTimeout != None:
         vfc_maxTimeout = int(args[0].maxTimeout)
diff --git a/src/tools/vfc_precexp b/src/tools/vfc_precexp
index 294cc3e..aa901b1 100755
--- a/src/tools/vfc_precexp
+++ b/src/tools/vfc_precexp
@@ -619,7 +619,7 @@ if __name__ == "__main__":
     )
     parser.add_argument(
         "--vprec_mode",
-        choices=["ieee", "ib", "ob", "all"],
+        choices=["ieee", "ib", "ob", "full", "all"],
         default="ob",
         help="vprec operating mode",
     )
@@ -634,6 +634,9 @@ if __name__ == "__main__":
     cmpPath = args[0].cmpPath
 
     vfc_vprec_mode = args[0].vprec_mode
+    if vfc_vprec_mode == "all":
+        # the backend calls this mode full
+        vfc_vprec_mode = "full"
     vfc_mode = args[0].mode
     if args[0].maxTimeout is not None:
         vfc_maxTimeout = int(args[0].maxTimeout)
-- 
2.43.0


From 72bb757c9e073c3f0c9a723b875e7ca1e4bae5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 40/48] fix: instrument sources with the .c++ extension

---
 verificarlo.in.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c9be680..27b5cdd 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -49,7 +49,7 @@ flang = "@FLANG_PATH@"
 opt = llvm_bindir + "/opt"
 FORTRAN_EXTENSIONS = [".f", ".f90", ".f77"]
 C_EXTENSIONS = [".c"]
-CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", "c++"]
+CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", ".c++"]
 ASSEMBLY_EXTENSIONS = [".s"]
 LLVM_BITCODE_EXTENSIONS = [".bc", ".ll"]
 COMPILE_EXTRA_FLAGS = ""
-- 
2.43.0


From fa4017419db862132d9aadf717ba6e6d4e99becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 41/48] fix: quote file names and options in the driver's
 commands

---
 verificarlo.in.in | 56 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 27b5cdd..9e754ce 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -23,6 +23,7 @@ from __future__ import print_function
 
 import argparse
 import os
+import shlex
 import subprocess
 import sys
 import tempfile
@@ -125,7 +126,7 @@ def is_llvm_bitcode(name):
 
 def shell_escape(argument):
     # prevents argument expansion in shell call
-    return "'" + argument + "'"
+    return shlex.quote(argument)
 
 
 def parse_extra_args(args):
@@ -150,7 +151,7 @@ def parse_extra_args(args):
         elif is_llvm_bitcode(a):
             sources.append(a)
         elif a.startswith("-l"):
-            libraries.append(a)
+            libraries.append(shell_escape(a))
         else:
             options.append(shell_escape(a))
 
@@ -177,10 +178,11 @@ def compile_vfcwrapper(source, output, args, emit_llvm=False):
     emit_format = get_emit_format(args)
     internal_options = (
         f" {emit_format} -emit-llvm " if emit_llvm else ""
-    ) + f" -c -Wno-varargs -I {mcalib_includes} "
+    ) + f" -c -Wno-varargs -I {shell_escape(mcalib_includes)} "
     cmd = (
         f"{clang} -O3 {march_flag} -g {internal_options} {extra_args} "
-        f"{source} -I{libinterflop_stdlib_include} -o {output} "
+        f"{shell_escape(source)} -I{libinterflop_stdlib_include} "
+        f"-o {shell_escape(output)} "
     )
     shell(cmd, verbose=args.show_cmd)
 
@@ -203,8 +205,11 @@ def linker_mode(sources, options, libraries, output, args):
             ".vfcwrapper.", ".o", args, force_delete=True
         ).name
         compile_vfcwrapper(vfcwrapper, vfcwrapper_o, args)
+        vfcwrapper_o = shell_escape(vfcwrapper_o)
 
-    sources = " ".join([os.path.splitext(s)[0] + ".o" for s in sources])
+    sources = " ".join(
+        [shell_escape(os.path.splitext(s)[0] + ".o") for s in sources]
+    )
     interflop_libs = " ".join(
         ["-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger"]
     )
@@ -235,7 +240,7 @@ def linker_mode(sources, options, libraries, output, args):
 # Do not instrument
 def compile_only(sources, options, output, args):
     compiler = linkers[args.linker]
-    sources = " ".join(sources)
+    sources = " ".join([shell_escape(s) for s in sources])
     shell(f"{compiler} {sources} {options} {output}", verbose=args.show_cmd)
 
 
@@ -278,7 +283,8 @@ def apply_function_instrumentation_pass(ir, ins, args):
     emit_format = get_emit_format(args)
     pass_args = get_opt_pass_args("vfclibfunc", libvfcfuncinstrument)
     shell(
-        f"{opt} {emit_format} {pass_args} {ir.name} -o {ins.name}",
+        f"{opt} {emit_format} {pass_args} {shell_escape(ir.name)} "
+        f"-o {shell_escape(ins.name)}",
         verbose=args.show_cmd,
     )
 
@@ -306,7 +312,9 @@ def apply_mca_instrumentation_pass(
                     extra_args += f" -vfclibinst-debug-{debug} "
     else:
         libvfcinst = libvfcinstrument
-        extra_args += f" -vfclibinst-vfcwrapper-file {vfcwrapper_ir.name} "
+        extra_args += (
+            f" -vfclibinst-vfcwrapper-file {shell_escape(vfcwrapper_ir.name)} "
+        )
 
     emit_format = get_emit_format(args)
     pass_args = get_opt_pass_args("vfclibinst", libvfcinst)
@@ -314,7 +322,7 @@ def apply_mca_instrumentation_pass(
         (
             f"{opt} {emit_format} {pass_args} "
             f"{extra_args} {selectfunction} "
-            f" {ir.name} -o {ins.name}"
+            f" {shell_escape(ir.name)} -o {shell_escape(ins.name)}"
         ),
         verbose=args.show_cmd,
     )
@@ -336,13 +344,13 @@ def compiler_mode(sources, options, output, args):
         ins = get_tmp_filename(basename, f".2.{ir_ext}", args)
 
         compiler = linkers[args.linker]
-        include = f" -I {mcalib_includes} "
+        include = f" -I {shell_escape(mcalib_includes)} "
 
         debug = " -g " if args.inst_func or args.ddebug else ""
 
         if is_assembly(source):
             if not output:
-                basename_output = "-o " + basename + ".o"
+                basename_output = "-o " + shell_escape(basename + ".o")
             else:
                 basename_output = output
             compile_only([source], " -c " + options, basename_output, args)
@@ -351,18 +359,24 @@ def compiler_mode(sources, options, output, args):
         # Compile to ir (fortran uses flang, c uses clang)
         emit_format = get_emit_format(args)
         shell(
-            f"{compiler} -c {emit_format} -emit-llvm {debug} {source} {include} {COMPILE_EXTRA_FLAGS} {options} -o {ir.name}",
+            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options} -o {shell_escape(ir.name)}",
             verbose=args.show_cmd,
         )
 
         selectfunction = ""
         if args.function:
-            selectfunction = " -vfclibinst-function " + args.function
+            selectfunction = " -vfclibinst-function " + shell_escape(
+                args.function
+            )
         else:
             if args.include_file:
-                selectfunction = " -vfclibinst-include-file " + args.include_file
+                selectfunction = " -vfclibinst-include-file " + shell_escape(
+                    args.include_file
+                )
             if args.exclude_file:
-                selectfunction += " -vfclibinst-exclude-file " + args.exclude_file
+                selectfunction += " -vfclibinst-exclude-file " + shell_escape(
+                    args.exclude_file
+                )
 
         if args.inst_func:
             # Apply function's instrumentation pass
@@ -393,19 +407,21 @@ def compiler_mode(sources, options, output, args):
             ir, ins, vfcwrapper_ir, extra_args, selectfunction, args
         )
 
-        cmd_output = output if output else " -o " + basename + ".o"
+        cmd_output = output if output else " -o " + shell_escape(basename + ".o")
 
         if not args.emit_llvm:
             # Produce object file
             shell(
-                f"{compiler} -c {cmd_output} {ins.name} {options}",
+                f"{compiler} -c {cmd_output} {shell_escape(ins.name)} {options}",
                 verbose=args.show_cmd,
             )
         else:
             # Produce a bc file with the wrapper bc linked in.
-            vfcwrapper_ir_name = vfcwrapper_ir.name if vfcwrapper_ir else ""
+            vfcwrapper_ir_name = (
+                shell_escape(vfcwrapper_ir.name) if vfcwrapper_ir else ""
+            )
             shell(
-                f"{llvm_link} {ins.name} {vfcwrapper_ir_name} {cmd_output}",
+                f"{llvm_link} {shell_escape(ins.name)} {vfcwrapper_ir_name} {cmd_output}",
                 verbose=args.show_cmd,
             )
 
@@ -512,7 +528,7 @@ def main():
     if args.function and (args.include_file or args.exclude_file):
         fail("Cannot use --function and --include-file/--exclude-file together")
 
-    output = "-o " + args.o if args.o else ""
+    output = "-o " + shell_escape(args.o) if args.o else ""
 
     # flang does not accept this clang-only diagnostic flag (LLVM 21+).
     if args.linker != "flang":
-- 
2.43.0


From 82e905fa4e092c9e1b558da22bd6aa9055a5c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 42/48] fix: never take an option for a source file

---
 verificarlo.in.in | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 9e754ce..831b41a 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -135,7 +135,11 @@ def parse_extra_args(args):
     libraries = []
 
     for a in args:
-        if is_fortran(a):
+        if a.startswith("-l"):
+            libraries.append(shell_escape(a))
+        elif a.startswith("-"):
+            options.append(shell_escape(a))
+        elif is_fortran(a):
             if not flang:
                 fail(
                     "fortran not supported. "
@@ -150,8 +154,6 @@ def parse_extra_args(args):
             sources.append(a)
         elif is_llvm_bitcode(a):
             sources.append(a)
-        elif a.startswith("-l"):
-            libraries.append(shell_escape(a))
         else:
             options.append(shell_escape(a))
 
-- 
2.43.0


From 0d1506e8f537d34595df7d8113d45641438e62f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 43/48] fix: accept -oFILE in one word in the driver

---
 verificarlo.in.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 831b41a..b98e8a7 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -514,6 +514,12 @@ def parse_args():
 
     args, other = parser.parse_known_args()
 
+    # the parser does not accept "-o<file>" in one word
+    for a in other:
+        if a.startswith("-o") and len(a) > 2:
+            args.o = a[2:]
+    other = [a for a in other if not a.startswith("-o")]
+
     sources, llvm_options, libraries = parse_extra_args(other)
 
     return args, sources, llvm_options, libraries
-- 
2.43.0


From f175368e3adbb9d87f9ae477d5dc51778cb93deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:37 +0000
Subject: [PATCH 44/48] fix: match module and function names literally in the
 selection lists

---
 src/libvfcinstrument/libVFCInstrument.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 047be20..c0562e9 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -157,7 +157,11 @@ struct VfclibInst : public ModulePass {
   }
 
   void escape_regex(std::string &str) {
-    findAndReplaceAll(str, ".", "\\.");
+    // every character but the wildcard stands for itself
+    for (const char *c : {"\\", "^", "$", ".", "+", "?", "(", ")", "[", "]", "{",
+                          "}", "|"}) {
+      findAndReplaceAll(str, c, std::string("\\") + c);
+    }
     // ECMAScript needs .* instead of * for matching any charactere
     // http://www.cplusplus.com/reference/regex/ECMAScript/
     findAndReplaceAll(str, "*", ".*");
-- 
2.43.0


From 63b1e42c88355d8eaa4966c0243dadec941e99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:07 +0000
Subject: [PATCH 45/48] fix: copy VTK elements in a way Python 3.9 and later
 provide

---
 src/tools/vtk/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 9757a09..03a648f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -22,6 +22,7 @@
 
 
 import argparse
+import copy
 import io
 import os
 import shutil
@@ -103,7 +104,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
 
         # original element
         original = output.find(xpath)
-        accuracy = original.copy()
+        accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
         if args.mean:
-- 
2.43.0


From bec80e9b4a6bff97b739b41a015c938c5439a8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:07 +0000
Subject: [PATCH 46/48] fix: use the magnitude of the mean for significant
 digits in vfc_vtk

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 03a648f..1f2b83f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -97,7 +97,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         if args.std:
             s = std
         else:
-            s = -np.log10(std / mean)
+            s = -np.log10(std / np.abs(mean))
             s[np.isnan(s)] = 0.0
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
-- 
2.43.0


From 53d8eb10eec74978b357eb07bf1e532fc9c03aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:07 +0000
Subject: [PATCH 47/48] fix: accept the reference output directory in vfc_vtk

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 1f2b83f..4bdd023 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -144,7 +144,7 @@ def postprocess(verificarlo_dir, output_dir, args):
 
     # Prepare reference output
     if args.r:
-        shutil.copyfile(args.r, output_dir)
+        shutil.copytree(args.r, output_dir)
     else:
         # Use first vtu file as base for the merge
         shutil.copytree(dirs[0], output_dir)
-- 
2.43.0


From ca2ef4ad0e2f010746c84134cd47dd2a1c34e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:07 +0000
Subject: [PATCH 48/48] fix: give every floating-point array its own accuracy
 in vfc_vtk

---
 src/tools/vtk/__main__.py | 41 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 4bdd023..cc7faf3 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -61,6 +61,18 @@ def np_to_string(a):
         return "\n" + s.getvalue()
 
 
+def find_float_arrays(tree):
+    """Returns the floating point DataArray nodes of a vtu file as a dictionary
+    (piece number, section, name) -> (piece, section node, DataArray node)"""
+    return {
+        (i, section.tag, c.get("Name")): (piece, section, c)
+        for i, piece in enumerate(tree.iter("Piece"))
+        for section in piece
+        for c in section.findall("DataArray")
+        if c.get("type") in ("Float32", "Float64")
+    }
+
+
 def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     """Postprocess a set of .vtu files adding verificarlo
     accuracy information.
@@ -72,22 +84,18 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     # open output file
     output = ET.parse(output_vtu)
 
-    # find names of float32 DataArray nodes
-    names = []
-    for c in output.findall(".//DataArray[@type='Float32']"):
-        names.append(c.get("Name"))
+    # find floating point DataArray nodes; a name is only unique inside its
+    # section (Points, PointData or CellData) of a piece
+    arrays = find_float_arrays(output)
+    traces = [
+        find_float_arrays(ET.parse(os.path.join(d, vtu_filename))) for d in vfc_dirs
+    ]
 
-    for name in names:
-        rows = []
-        xpath = ".//DataArray[@type='Float32'][@Name='{}']".format(name)
+    for key, (piece, parent, original) in arrays.items():
+        name = original.get("Name")
 
         # for each verificarlo trace extract data as a numpy double array
-        for d in vfc_dirs:
-            vtu_path = os.path.join(d, vtu_filename)
-            inp = ET.parse(vtu_path)
-            c = inp.find(xpath)
-            assert c is not None
-            rows.append(np.fromstring(c.text, np.float64, sep=" "))
+        rows = [np.fromstring(t[key][2].text, np.float64, sep=" ") for t in traces]
 
         # compute the mean and significant digits across MCA traces
         mat = np.stack(rows)
@@ -102,8 +110,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
 
-        # original element
-        original = output.find(xpath)
+        # start from the original element
         accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
@@ -114,12 +121,10 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         accuracy.set("Name", name + "_vfc_accuracy")
         accuracy.text = np_to_string(s)
 
-        # retrieve parent
-        parent = output.find(xpath + "/..")
         if parent.tag != "Points":
             insert_in = parent
         else:
-            insert_in = output.find(".//PointData")
+            insert_in = piece.find("PointData")
 
         # insert it as a sibling
         insert_in.insert(0, accuracy)
-- 
2.43.0

