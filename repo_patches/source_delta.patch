From f73d33d0786743ebca14e95b346da0fde8c22d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 01/73] fix: keep an error message alive after the parser or
 compiler that raised it is destroyed

---
 src/handlebars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars.c b/src/handlebars.c
index 7a70c79..7570ca2 100644
--- a/src/handlebars.c
+++ b/src/handlebars.c
@@ -178,7 +178,8 @@ static void _set_err(struct handlebars_context * context, enum handlebars_error_
     struct handlebars_error * e = context->e;
     e->num = num;
 
-    e->msg = talloc_vasprintf(context, msg, ap);
+    // The message has to outlive the object that raised the error, so it belongs to the error itself
+    e->msg = talloc_vasprintf(e, msg, ap);
 
     if( unlikely(e->msg == NULL) ) {
         e->num = HANDLEBARS_NOMEM;
-- 
2.43.0


From c22227354016136b434805a637ac3a7e64f125af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 02/73] fix: restore the machine's state when a render ends in
 an error

---
 src/handlebars_vm.c | 58 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..dff5c92 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1387,19 +1387,38 @@ struct handlebars_string * handlebars_vm_execute_ex(
     jmp_buf * prev = HBSCTX(vm)->e->jmp;
     struct handlebars_module * prev_module = vm->module;
     unsigned long prev_flags = vm->flags;
+    long prev_depth = vm->depth;
+    struct handlebars_string * prev_buffer = vm->buffer;
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
+    struct handlebars_stack * prev_stack = vm->stack;
+    struct handlebars_stack * prev_context_stack = vm->contextStack;
+    struct handlebars_stack * prev_hash_stack = vm->hashStack;
+    struct handlebars_stack * prev_block_param_stack = vm->blockParamStack;
+    struct handlebars_stack * prev_partial_block_stack = vm->partialBlockStack;
+    struct handlebars_stack_save_buf st = {0}, hst = {0}, cst = {0}, bst = {0}, pst = {0};
 
     struct handlebars_string * buffer = NULL;
-    bool volatile setup_stacks = false;
+    bool volatile failed = false;
     jmp_buf buf;
 
+    HANDLEBARS_VALUE_DECL(prev_data);
+    handlebars_value_value(prev_data, &vm->data);
+
+    // Save stacks
+    if (prev_stack != NULL) {
+        st = handlebars_stack_save(prev_stack);
+        hst = handlebars_stack_save(prev_hash_stack);
+        cst = handlebars_stack_save(prev_context_stack);
+        bst = handlebars_stack_save(prev_block_param_stack);
+        pst = handlebars_stack_save(prev_partial_block_stack);
+    }
+
     // Save jump buffer
-    if( !prev ) {
-        if( handlebars_setjmp_ex(vm, &buf) ) {
-            goto done;
-        }
+    if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        goto done;
     }
 
     // Setup stacks
@@ -1409,7 +1428,6 @@ struct handlebars_string * handlebars_vm_execute_ex(
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        setup_stacks = true;
     }
 
     if (vm->last_context == NULL) {
@@ -1427,12 +1445,17 @@ done:
     HBSCTX(vm)->e->jmp = prev;
 
     // Reset stacks
-    if (setup_stacks) {
-        vm->stack = NULL;
-        vm->contextStack = NULL;
-        vm->hashStack = NULL;
-        vm->blockParamStack = NULL;
-        vm->partialBlockStack = NULL;
+    vm->stack = prev_stack;
+    vm->contextStack = prev_context_stack;
+    vm->hashStack = prev_hash_stack;
+    vm->blockParamStack = prev_block_param_stack;
+    vm->partialBlockStack = prev_partial_block_stack;
+    if (prev_stack != NULL) {
+        handlebars_stack_restore(vm->stack, st);
+        handlebars_stack_restore(vm->hashStack, hst);
+        handlebars_stack_restore(vm->contextStack, cst);
+        handlebars_stack_restore(vm->blockParamStack, bst);
+        handlebars_stack_restore(vm->partialBlockStack, pst);
     }
 
     // Reset
@@ -1442,6 +1465,17 @@ done:
     vm->module = prev_module;
     vm->flags = prev_flags;
 
+    // After an error, also undo what the interrupted programs left behind, and pass it on to the caller's handler
+    if (failed) {
+        vm->depth = prev_depth;
+        vm->buffer = prev_buffer;
+        handlebars_value_value(&vm->data, prev_data);
+    }
+    HANDLEBARS_VALUE_UNDECL(prev_data);
+    if (failed && prev) {
+        longjmp(*prev, HBSCTX(vm)->e->num);
+    }
+
     return buffer;
 }
 
-- 
2.43.0


From e0de957610e0b75f6e488b7b76800cfa67eacf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 03/73] fix: report an error inside a partial or lambda
 template instead of dropping the output

---
 src/handlebars_vm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index dff5c92..41762c6 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -329,8 +329,12 @@ static struct handlebars_string * execute_template(
     int escape,
     bool use_delimiters
 ) {
-    struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    struct handlebars_context * context = handlebars_talloc_zero(vm, struct handlebars_context);
+    HANDLEBARS_MEMCHECK(context, CONTEXT);
+    // Errors of the parser and compiler are errors of this machine
+    handlebars_context_bind(CONTEXT, context);
     struct handlebars_string * volatile retval = NULL;
+    bool volatile failed = false;
     struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
     bool const from_cache = module != NULL;
     long prev_depth = vm->depth;
@@ -346,6 +350,7 @@ static struct handlebars_string * execute_template(
 
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
         goto done;
     }
 
@@ -400,6 +405,11 @@ done:
     }
     handlebars_string_delref(tmpl);
     handlebars_context_dtor(context);
+    if (failed) {
+        // Report the error to whoever is rendering us
+        assert(prev_jmp != NULL);
+        longjmp(*prev_jmp, HBSCTX(vm)->e->num);
+    }
     if (retval) {
         return retval;
     } else {
-- 
2.43.0


From 4282a8e9de73e1bc31a8135ac700b391a913ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 04/73] fix: report runaway recursion of partials as a stack
 overflow error instead of crashing

---
 src/handlebars_vm.c | 12 ++++++++----
 src/handlebars_vm.h |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 41762c6..357b1b5 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -337,7 +337,6 @@ static struct handlebars_string * execute_template(
     bool volatile failed = false;
     struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
     bool const from_cache = module != NULL;
-    long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
@@ -388,8 +387,6 @@ static struct handlebars_string * execute_template(
         handlebars_parser_dtor(parser);
     }
 
-    vm->depth++;
-
     retval = handlebars_vm_execute(vm, module, input);
     assert(retval != NULL);
 
@@ -399,7 +396,6 @@ static struct handlebars_string * execute_template(
 
 done:
     HBSCTX(vm)->e->jmp = prev_jmp;
-    vm->depth = prev_depth;
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
@@ -1317,6 +1313,12 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
     // Get program
 	struct handlebars_module_table_entry * entry = &vm->module->programs[program_num];
 
+    // Check for runaway recursion
+    if( vm->depth >= HANDLEBARS_VM_MAX_DEPTH ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
+    vm->depth++;
+
     // Save and set buffer
     struct handlebars_string * prev_buffer = vm->buffer;
     vm->buffer = handlebars_string_init(CONTEXT, HANDLEBARS_VM_BUFFER_INIT_SIZE);
@@ -1378,6 +1380,8 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
     struct handlebars_string * buffer = vm->buffer;
     vm->buffer = prev_buffer;
 
+    vm->depth--;
+
     return buffer;
 }
 
diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 45deb93..e40b84e 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -34,6 +34,11 @@ struct handlebars_vm;
 #define HANDLEBARS_VM_STACK_SIZE 96
 #endif
 
+//! The number of programs (blocks, partials, ...) that may be executing inside one another
+#ifndef HANDLEBARS_VM_MAX_DEPTH
+#define HANDLEBARS_VM_MAX_DEPTH (HANDLEBARS_VM_STACK_SIZE * 4)
+#endif
+
 #ifndef HANDLEBARS_VM_BUFFER_INIT_SIZE
 #define HANDLEBARS_VM_BUFFER_INIT_SIZE 128
 #endif
-- 
2.43.0


From caef87546d1066b90304e9d937650548d39ce501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 05/73] fix: resolve block params from nested blocks and run
 partial blocks in the scope they were written in

---
 src/handlebars_vm.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 357b1b5..9042ad1 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -416,10 +416,12 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 3);
+    assert(localc >= 5);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_ARRAY);
+    assert(HANDLEBARS_LOCAL_AT(4)->type == HANDLEBARS_VALUE_TYPE_ARRAY);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
@@ -432,17 +434,34 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
     }
 
-    struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
+    HANDLEBARS_VALUE_DECL(input);
+    handlebars_value_value(input, argc > 0 ? &argv[0] : TOP(vm->contextStack));
+
+    // The block sees the parent contexts and block params of the place it was written in
+    struct handlebars_stack * prev_context_stack = vm->contextStack;
+    struct handlebars_stack * prev_block_param_stack = vm->blockParamStack;
+    struct handlebars_stack * context_stack = handlebars_value_get_stack(HANDLEBARS_LOCAL_AT(3));
+    struct handlebars_stack * block_param_stack = handlebars_value_get_stack(HANDLEBARS_LOCAL_AT(4));
+    // (with room for all programs that may still be entered: these must not be reallocated)
+    vm->contextStack = handlebars_stack_copy_ctor(context_stack, LEN(context_stack) + HANDLEBARS_VM_MAX_DEPTH);
+    vm->blockParamStack = handlebars_stack_copy_ctor(block_param_stack, LEN(block_param_stack) + HANDLEBARS_VM_MAX_DEPTH);
+
     struct handlebars_string * buffer;
     if (vm->module == module) {
-        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, NULL);
     } else {
-        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, NULL);
     }
     if (buffer) {
         handlebars_value_str(rv, buffer);
     }
 
+    handlebars_stack_delref(vm->contextStack);
+    handlebars_stack_delref(vm->blockParamStack);
+    vm->contextStack = prev_context_stack;
+    vm->blockParamStack = prev_block_param_stack;
+    HANDLEBARS_VALUE_UNDECL(input);
+
     // Pop partial block
     if (pushed_partial_block) {
         // This should never happen, but we need to convince scan-build of it
@@ -819,11 +838,13 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 3;
+        const int closure_localc = 5;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
+        handlebars_value_array(&closure_localv[3], handlebars_stack_copy_ctor(vm->contextStack, 0));
+        handlebars_value_array(&closure_localv[4], handlebars_stack_copy_ctor(vm->blockParamStack, 0));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1350,10 +1371,10 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, data);
     }
 
-    // Set block params
-    if( block_params ) {
-        PUSH(vm->blockParamStack, block_params);
-    }
+    // Set block params. The compiler counts a frame for every program, whether it has any or not
+    HANDLEBARS_VALUE_DECL(no_block_params);
+    PUSH(vm->blockParamStack, block_params ? block_params : no_block_params);
+    HANDLEBARS_VALUE_UNDECL(no_block_params);
 
     // Execute the program
 	handlebars_vm_accept(vm, entry);
@@ -1440,7 +1461,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_MAX_DEPTH);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
     }
 
-- 
2.43.0


From 82c87bbefd5c058fff29562dabdde834344e2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 06/73] fix: treat @partial-block outside of a partial block as
 missing

---
 src/handlebars_vm.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 9042ad1..3170e79 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -428,11 +428,14 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
     bool pushed_partial_block = false;
 
-    // Push partial block
+    // Push the partial block of the place the block was written in, or null if there was none
+    HANDLEBARS_VALUE_DECL(parent_block);
     if (partial_block_depth > 0) {
-        pushed_partial_block = true;
-        PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
+        handlebars_value_value(parent_block, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
     }
+    pushed_partial_block = true;
+    PUSH(vm->partialBlockStack, parent_block);
+    HANDLEBARS_VALUE_UNDECL(parent_block);
 
     HANDLEBARS_VALUE_DECL(input);
     handlebars_value_value(input, argc > 0 ? &argv[0] : TOP(vm->contextStack));
@@ -834,6 +837,9 @@ ACCEPT_FUNCTION(invoke_partial)
     // Try to look up partial block
     if (!partial && name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
         partial = TOP(vm->partialBlockStack);
+        if (handlebars_value_get_type(partial) == HANDLEBARS_VALUE_TYPE_NULL) {
+            partial = NULL;
+        }
     }
 
     // Push partial block
@@ -1019,7 +1025,7 @@ ACCEPT_FUNCTION(lookup_data)
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
         handlebars_value_value(val, TOP(vm->contextStack));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
-- 
2.43.0


From 0bfdbcf929bf756cb2c0b2a862745b153e22d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 07/73] fix: make @root the outermost context, not the
 innermost

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 3170e79..2f07343 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1024,7 +1024,7 @@ ACCEPT_FUNCTION(lookup_data)
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
+        handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
-- 
2.43.0


From c4da67639938cc30a7207f29e849cdce483c1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 08/73] fix: a path through a block param, data variable or
 array never designates the value of a shorter path

---
 src/handlebars_vm.c | 69 ++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 2f07343..85fb37c 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -301,6 +301,35 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
     HANDLEBARS_VALUE_UNDECL(rv);
 }
 
+//! Look up one segment of a path in a map or array, returns NULL if there is no such member
+HBS_ATTR_NONNULL_ALL
+static inline struct handlebars_value * lookup_member(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
+{
+    switch( handlebars_value_get_type(value) ) {
+        case HANDLEBARS_VALUE_TYPE_MAP:
+            return handlebars_value_map_find(value, key, rv);
+
+        case HANDLEBARS_VALUE_TYPE_ARRAY: {
+            const char * str = hbs_str_val(key);
+            size_t len = hbs_str_len(key);
+            size_t index = 0;
+            if( len < 1 || len > 18 ) {
+                return NULL;
+            }
+            for( size_t i = 0; i < len; i++ ) {
+                if( str[i] < '0' || str[i] > '9' ) {
+                    return NULL;
+                }
+                index = index * 10 + (size_t) (str[i] - '0');
+            }
+            return handlebars_value_array_find(value, index, rv);
+        }
+
+        default:
+            return NULL;
+    }
+}
+
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
@@ -963,22 +992,14 @@ ACCEPT_FUNCTION(lookup_block_param)
     arr_len = opcode->op2.data.array.count;
     arr = opcode->op2.data.array.array;
 
-    if( arr_len > 1 ) {
-        struct handlebars_value * tmp = v2;
-        struct handlebars_value * tmp2;
-        for( i = 1; i < arr_len; i++ ) {
-            tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
-            if( tmp2 ) {
-                tmp = tmp2;
-            } else {
-                break;
-            }
-        }
-        if (tmp) {
-            handlebars_value_value(value, tmp);
+    handlebars_value_value(value, v2);
+    for( i = 1; i < arr_len; i++ ) {
+        struct handlebars_value * tmp = lookup_member(value, arr[i].string, rv);
+        if( !tmp ) {
+            handlebars_value_null(value);
+            break;
         }
-    } else {
-        handlebars_value_value(value, v2);
+        handlebars_value_value(value, tmp);
     }
 
 done:
@@ -1035,11 +1056,13 @@ ACCEPT_FUNCTION(lookup_data)
 
     for( i = 1 ; i < arr_len; i++ ) {
         struct handlebars_operand_string * part = arr + i;
-        if( handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP &&
-                NULL != (tmp = handlebars_value_map_find(val, part->string, rv)) ) {
+        if( NULL != (tmp = lookup_member(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            handlebars_value_null(val);
+            break;
         }
     }
 
@@ -1079,7 +1102,6 @@ ACCEPT_FUNCTION(lookup_on_context)
     size_t arr_len = opcode->op1.data.array.count;
     struct handlebars_operand_string * arr = opcode->op1.data.array.array;
     struct handlebars_operand_string * arr_end = arr + arr_len;
-    long index = -1;
     bool is_strict = (vm->flags & handlebars_compiler_flag_strict) || (vm->flags & handlebars_compiler_flag_assume_objects);
     bool require_terminal = (vm->flags & handlebars_compiler_flag_strict) && opcode->op3.data.boolval;
 
@@ -1093,14 +1115,9 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     do {
         bool is_last = arr == arr_end - 1;
-        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            value = handlebars_value_map_find(value, arr->string, rv2);
-        } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
-                value = handlebars_value_array_find(value, index, rv2);
-            } else {
-                value = NULL;
-            }
+        enum handlebars_value_type type = handlebars_value_get_type(value);
+        if( type == HANDLEBARS_VALUE_TYPE_MAP || type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+            value = lookup_member(value, arr->string, rv2);
         } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
             goto done_and_err;
         } else {
-- 
2.43.0


From 105fd97180cf00932a2155ee2921be0a1737a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 09/73] fix: copying a part of a container over the handle that
 holds the container

---
 src/handlebars_value.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..2fc4124 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -517,31 +517,33 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
-    *dest = *src;
-    switch( dest->type ) {
+    // src may be a part of what dest holds, so take the new reference before releasing the old one
+    struct handlebars_value tmp = *src;
+    switch( tmp.type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            handlebars_stack_addref(dest->v.stack);
+            handlebars_stack_addref(tmp.v.stack);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            handlebars_map_addref(dest->v.map);
+            handlebars_map_addref(tmp.v.map);
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            handlebars_string_addref(dest->v.string);
+            handlebars_string_addref(tmp.v.string);
             break;
         case HANDLEBARS_VALUE_TYPE_USER:
-            handlebars_user_addref(dest->v.user);
+            handlebars_user_addref(tmp.v.user);
             break;
         case HANDLEBARS_VALUE_TYPE_PTR:
-            handlebars_ptr_addref(dest->v.ptr);
+            handlebars_ptr_addref(tmp.v.ptr);
             break;
         case HANDLEBARS_VALUE_TYPE_CLOSURE:
-            handlebars_closure_addref(dest->v.closure);
+            handlebars_closure_addref(tmp.v.closure);
             break;
         default:
             // do nothing
             break;
     }
+    handlebars_value_null(dest);
+    *dest = tmp;
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From a1d17d27f6c379a04dafa7371df0570831d8387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 10/73] fix: a value that held a safe string does not mark the
 next string stored in it as safe

---
 src/handlebars_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 2fc4124..025e588 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
-- 
2.43.0


From b5f4b4429ea4549366b110c3040b060379e00c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 11/73] fix: a partial call or section does not consume a value
 its surroundings left on the stack

---
 src/handlebars_vm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 85fb37c..898fa80 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -654,9 +654,9 @@ ACCEPT_FUNCTION(block_value)
     options.name = opcode->op1.data.string.string;
 
     struct handlebars_value * result = handlebars_vm_call_helper_str(HBS_STRL("blockHelperMissing"), argc, argv, &options, vm, rv);
-    if (likely(result != NULL)) {
-        append_to_buffer(vm, result, 0);
-    }
+    // The append that follows takes it off the stack
+    assert(result != NULL);
+    PUSH(vm->stack, result);
 
     VM_TEARDOWN_OPTIONS(argc);
     HANDLEBARS_VALUE_UNDECL(rv);
@@ -954,6 +954,11 @@ done:
         HANDLEBARS_VALUE_UNDECL(closure_value);
     }
 
+    // The output has been appended already: leave nothing to the append that follows
+    HANDLEBARS_VALUE_DECL(nothing);
+    PUSH(vm->stack, nothing);
+    HANDLEBARS_VALUE_UNDECL(nothing);
+
     VM_TEARDOWN_OPTIONS(argc);
     HANDLEBARS_VALUE_UNDECL(partial_block);
     HANDLEBARS_VALUE_UNDECL(rv);
-- 
2.43.0


From 7e5bb94a9f4bffc961f4f44f527fbaa23d725965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 12/73] fix: hash arguments of a partial are not dropped when
 its context is an empty object

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 898fa80..e4f0647 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -333,7 +333,7 @@ static inline struct handlebars_value * lookup_member(struct handlebars_value *
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
-    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(input) > 0 &&
+    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP &&
             hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
         struct handlebars_map * new_map = handlebars_map_ctor(context, handlebars_value_count(input) + handlebars_value_count(hash));
         HANDLEBARS_VALUE_FOREACH_KV(input, key, child) {
-- 
2.43.0


From 7bab8d07e487709ba6ca90e2eec718319f4c0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 13/73] fix: strict and assume-objects report exactly the
 missing step of a path, for data variables too

---
 src/handlebars_vm.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index e4f0647..0589e9c 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1034,7 +1034,7 @@ ACCEPT_FUNCTION(lookup_data)
 
     long depth = opcode->op1.data.longval;
     size_t arr_len = opcode->op2.data.array.count;
-    size_t i;
+    size_t i = 0;
     struct handlebars_operand_string * arr = opcode->op2.data.array.array;
     struct handlebars_operand_string * first = arr;
 
@@ -1053,28 +1053,23 @@ ACCEPT_FUNCTION(lookup_data)
         handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
-    } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
-        goto done_and_err;
     } else {
-        goto done_and_null;
+        goto missing;
     }
 
     for( i = 1 ; i < arr_len; i++ ) {
-        struct handlebars_operand_string * part = arr + i;
-        if( NULL != (tmp = lookup_member(val, part->string, rv)) ) {
+        enum handlebars_value_type type = handlebars_value_get_type(val);
+        bool is_object = type == HANDLEBARS_VALUE_TYPE_MAP || type == HANDLEBARS_VALUE_TYPE_ARRAY;
+        arr++;
+        if( NULL != (tmp = lookup_member(val, arr->string, rv)) ) {
             handlebars_value_value(val, tmp);
-        } else if( is_strict || require_terminal ) {
-            goto done_and_err;
-        } else {
-            handlebars_value_null(val);
-            break;
+            continue;
         }
-    }
-
-    if( val->type == HANDLEBARS_VALUE_TYPE_NULL ) {
-        done_and_null:
-        if( require_terminal ) {
-            done_and_err:
+        if( !is_object && (vm->flags & handlebars_compiler_flag_assume_objects) ) {
+            require_terminal = true;
+        }
+missing:
+        if( require_terminal || (is_strict && i + 1 < arr_len) ) {
             handlebars_throw_ex(
                 CONTEXT,
                 HANDLEBARS_ERROR,
@@ -1083,6 +1078,8 @@ ACCEPT_FUNCTION(lookup_data)
                 (int) hbs_str_len(arr->string), hbs_str_val(arr->string)
             );
         }
+        handlebars_value_null(val);
+        break;
     }
 
     PUSH(vm->stack, val);
@@ -1123,7 +1120,7 @@ ACCEPT_FUNCTION(lookup_on_context)
         enum handlebars_value_type type = handlebars_value_get_type(value);
         if( type == HANDLEBARS_VALUE_TYPE_MAP || type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
             value = lookup_member(value, arr->string, rv2);
-        } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
+        } else if( (vm->flags & handlebars_compiler_flag_assume_objects) || (is_strict && !is_last) ) {
             goto done_and_err;
         } else {
             goto done_and_null;
-- 
2.43.0


From bccb4ba7dbafdca9ca6550fdd45df362aee363dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 14/73] fix: render the result of a mustache style lambda in
 the current context, not against the lambda itself

---
 src/handlebars_vm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 0589e9c..bd831c1 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -552,8 +552,11 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
 
     if (!handlebars_value_is_empty(lambda_result)) {
         struct handlebars_string * tmpl = handlebars_value_to_string(lambda_result, CONTEXT);
-        struct handlebars_string * rv_str = execute_template(vm, tmpl, callable, NULL, 0, use_delimiters);
+        HANDLEBARS_VALUE_DECL(context);
+        handlebars_value_value(context, TOP(vm->contextStack));
+        struct handlebars_string * rv_str = execute_template(vm, tmpl, context, NULL, 0, use_delimiters);
         handlebars_value_str(rv, rv_str);
+        HANDLEBARS_VALUE_UNDECL(context);
     }
 
     HANDLEBARS_VALUE_ARRAY_UNDECL(lambda_argv, 1);
-- 
2.43.0


From 3b3306fed5a555ac43de772e665fae9c08daf24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 15/73] fix: a template cache returns only what was compiled
 for the same text and flags, and never drops a module in use

---
 src/handlebars_cache_simple.c | 30 ++++++++++++++++++---
 src/handlebars_vm.c           | 51 ++++++++++++++++++++++++-----------
 2 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..892d913 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -130,13 +130,22 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_map * map = intern->map;
     struct handlebars_value * value = handlebars_map_find(map, tmpl);
     struct handlebars_module * module = NULL;
+    time_t now;
+    time(&now);
     if( value ) {
         // module = (struct handlebars_module *) value->v.ptr;
         module = handlebars_value_get_ptr(value, struct handlebars_module);
         assert(handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_PTR);
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
-        time(&module->ts);
+        // Check if it's too old
+        if( cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age ) {
+            module = NULL;
+        }
+    }
+    if( module ) {
+        module->ts = now;
         intern->stat.hits++;
+        intern->stat.refcount++;
     } else {
         intern->stat.misses++;
     }
@@ -149,17 +158,27 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
     struct handlebars_cache_stat * stat = &intern->stat;
     HANDLEBARS_VALUE_DECL(value);
 
-    // Check if it would exceed the size
-    if( should_gc(cache) ) {
+    // Check if it would exceed the size (but keep what is being executed)
+    if( intern->stat.refcount == 0 && should_gc(cache) ) {
         handlebars_cache_gc(cache);
     }
 
+    // There may be an expired entry
+    struct handlebars_value * prev = handlebars_map_find(intern->map, tmpl);
+    if( prev ) {
+        stat->current_entries--;
+        stat->current_size -= handlebars_value_get_ptr(prev, struct handlebars_module)->size;
+        intern->map = handlebars_map_remove(intern->map, tmpl);
+    }
+
     time(&module->ts);
 
     module = talloc_steal(cache, module);
     struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
     handlebars_value_ptr(value, uptr);
 
+    // The key must live as long as the cache
+    tmpl = handlebars_string_copy_ctor(HBSCTX(cache), tmpl);
     intern->map = handlebars_map_add(intern->map, tmpl, value);
 
     // Update master
@@ -171,7 +190,10 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    if( intern->stat.refcount > 0 ) {
+        intern->stat.refcount--;
+    }
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index bd831c1..22d8832 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -364,8 +364,8 @@ static struct handlebars_string * execute_template(
     handlebars_context_bind(CONTEXT, context);
     struct handlebars_string * volatile retval = NULL;
     bool volatile failed = false;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_module * volatile module = NULL;
+    bool volatile from_cache = false;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
@@ -382,21 +382,36 @@ static struct handlebars_string * execute_template(
         goto done;
     }
 
+    // The text that is compiled also depends on the delimiters and the indent
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        struct handlebars_string * text = handlebars_preprocess_delimiters(
+            HBSCTX(context),
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        if (indent) {
+            text = handlebars_string_indent(HBSCTX(context), text, indent);
+        }
+        handlebars_string_addref(text);
+        tmpl = text; // (preprocessing has released the original)
+    }
+
     // Check for cached template, if available
+    bool can_add = vm->cache != NULL;
+    if( vm->cache && NULL != (module = handlebars_cache_find(vm->cache, tmpl)) ) {
+        if( module->flags == vm->flags ) {
+            from_cache = true;
+        } else {
+            // Compiled for a machine with other flags
+            handlebars_cache_release(vm->cache, tmpl, module);
+            can_add = false;
+        }
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
 
         // Compile
@@ -407,9 +422,13 @@ static struct handlebars_string * execute_template(
         // Serialize
         module = handlebars_program_serialize(context, program);
 
-        // Save cache entry
-        if( vm->cache ) {
-            handlebars_cache_add(vm->cache, tmpl, module);
+        // Save cache entry. The cache may discard it at any time, so it gets a module of its own
+        if( can_add ) {
+            struct handlebars_module * copy = talloc_memdup(context, module, module->size);
+            HANDLEBARS_MEMCHECK(copy, CONTEXT);
+            talloc_set_type(copy, struct handlebars_module);
+            handlebars_module_patch_pointers(copy);
+            handlebars_cache_add(vm->cache, tmpl, copy);
         }
 
         // Cleanup parser
-- 
2.43.0


From f72d54264e8f495c89ee8cc0c7c8996c09769294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 16/73] fix: shared memory cache: expired entries are misses,
 and lookups are safe against concurrent changes

---
 src/handlebars_cache_mmap.c | 79 ++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..5c856d7 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -62,8 +62,12 @@
 #ifdef HAVE_ATOMIC_BUILTINS
 #define INCR(var) __atomic_add_fetch(&var, 1, __ATOMIC_SEQ_CST)
 #define DECR(var) __atomic_sub_fetch(&var, 1, __ATOMIC_SEQ_CST)
+#define GET(var) __atomic_load_n(&var, __ATOMIC_SEQ_CST)
+#define SET(var, val) __atomic_store_n(&var, val, __ATOMIC_SEQ_CST)
 #else
-#define INCR(var) lock(cache); var++; unlock(cache)
+#define GET(var) (var)
+#define SET(var, val) (var) = (val)
+#define INCR(var) var++ // (only used with the lock held)
 #define DECR(var) lock(cache); var--; unlock(cache)
 #endif
 
@@ -229,15 +233,15 @@ static void cache_reset(struct handlebars_cache * cache)
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
     // Lock
-    intern->in_reset = true;
+    SET(intern->in_reset, true);
 
     // Try to wait for refcount to empty
 #ifdef HAVE_ATOMIC_BUILTINS
     int counter = 0;
-    while( __atomic_load_n(&intern->refcount, __ATOMIC_SEQ_CST) > 0 && ++counter <= 100 ) {
+    while( GET(intern->refcount) > 0 && ++counter <= 100 ) {
         usleep(5000);
     }
-    if( __atomic_load_n(&intern->refcount, __ATOMIC_SEQ_CST) > 0 ) {
+    if( GET(intern->refcount) > 0 ) {
         goto error;
     }
 #else
@@ -248,6 +252,11 @@ static void cache_reset(struct handlebars_cache * cache)
 
     // Unprotect/Lock
     lock(cache);
+    if( GET(intern->refcount) > 0 ) {
+        // Somebody was quicker
+        unlock(cache);
+        goto error;
+    }
     protect(cache, false);
 
     // Initialize header
@@ -263,7 +272,7 @@ static void cache_reset(struct handlebars_cache * cache)
 
 error:
     // Unlock
-    intern->in_reset = false;
+    SET(intern->in_reset, false);
 }
 
 static int cache_gc(struct handlebars_cache * cache)
@@ -278,52 +287,53 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_module * module = NULL;
     time_t now;
 
+    time(&now);
+
+    // Make sure it is computed before the lock is taken
+    hbs_str_hash(key);
+
+    // The entry must not be reset between finding it and counting the reference
+    lock(cache);
+
     // Currently resetting
-    if( intern->in_reset ) {
-        return NULL;
+    if( GET(intern->in_reset) ) {
+        goto done;
     }
 
-    // Find entry
+    // Find entry and compare key
     struct table_entry * entry = table_find(intern, key);
-
-    if( !entry ) {
+    if( !entry || !handlebars_string_eq(key, entry->key) ) {
         // Not found, or not ready
-        INCR(intern->misses);
-        goto error;
-    }
-
-    // Compare key
-    if( !handlebars_string_eq(key, entry->key) ) {
-        INCR(intern->misses);
-        //INCR(intern->collisions);
-        goto error;
+        goto done;
     }
 
     // Get data
     module = entry->data;
 
     // Check if it's too old or wrong version
-    time(&now);
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
-        lock(cache);
         protect(cache, false);
         table_unset(intern, key);
-        intern->misses++;
         intern->table_entries--;
         protect(cache, true);
-        unlock(cache);
-        goto error;
+        module = NULL;
+        goto done;
+    }
+
+    INCR(intern->hits);
+    INCR(intern->refcount);
+
+done:
+    if( module == NULL ) {
+        INCR(intern->misses);
     }
+    unlock(cache);
 
     // Check for pointer mismatch
-    if( unlikely((void *) module != module->addr) ) {
+    if( unlikely(module != NULL && (void *) module != module->addr) ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
     }
 
-    INCR(intern->hits);
-    INCR(intern->refcount);
-
-error:
     return module;
 }
 
@@ -336,10 +346,13 @@ static void cache_add(
     struct table_entry entry;
 
     // Currently resetting
-    if( intern->in_reset ) {
+    if( GET(intern->in_reset) ) {
         return;
     }
 
+    // Make sure it is computed before the lock is taken
+    hbs_str_hash(key);
+
     // Lock
     lock(cache);
     protect(cache, false);
@@ -350,7 +363,7 @@ static void cache_add(
     struct table_entry * found = table_find(intern, key);
     if( found ) {
         if( !handlebars_string_eq(found->key, key) ) {
-            INCR(intern->collisions);
+            intern->collisions++;
         }
         goto error;
     }
@@ -397,14 +410,16 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     stat.total_table_size = intern->table_size;
     stat.total_data_size = intern->data_size;
     stat.total_entries = intern->table_count;
+    lock(cache);
     stat.current_entries = intern->table_entries;
     stat.current_table_size = intern->table_entries * sizeof(struct table_entry);
     stat.current_data_size = intern->data_length;
     stat.current_size = stat.current_table_size + stat.current_data_size;
     stat.hits = intern->hits;
     stat.misses = intern->misses;
-    stat.refcount = intern->refcount;
+    stat.refcount = GET(intern->refcount);
     stat.collisions = intern->collisions;
+    unlock(cache);
     return stat;
 }
 
-- 
2.43.0


From d87a7d523c8fadc256e1ffb65731e9b24e1fb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 17/73] fix: LMDB cache: garbage collection and reset are
 committed

---
 src/handlebars_cache_lmdb.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..b4c9150 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -72,6 +72,7 @@ static int cache_gc(struct handlebars_cache * cache)
     MDB_cursor *cursor;
     MDB_stat stat;
     time_t now;
+    int removed = 0;
 
     time(&now);
 
@@ -93,15 +94,23 @@ static int cache_gc(struct handlebars_cache * cache)
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
         struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
-        if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
-            mdb_del(txn, dbi, &key, NULL);
+        if( cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age ) {
+            err = mdb_cursor_del(cursor, 0);
+            if( err != 0 ) break;
+            removed++;
         }
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != 0 && err != MDB_NOTFOUND ) goto error;
+
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+    return removed;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -266,7 +275,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     err = mdb_stat(txn, dbi, &stat);
     if( err != 0 ) goto error;
 
-    intern->stat.name = "mmap";
+    intern->stat.name = "lmdb";
     intern->stat.current_entries = stat.ms_entries;
 
 error:
@@ -291,6 +300,12 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+
+    memset(&intern->stat, 0, sizeof(intern->stat));
+    return;
+
     error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
-- 
2.43.0


From 3d42a9912eb7fe11d260af94de9958f747fdff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 18/73] fix: LMDB cache: two long templates with the same hash
 are different templates

---
 src/handlebars_cache_lmdb.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index b4c9150..12f2bd9 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -156,6 +156,14 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 
     module = ((struct handlebars_module *) data.mv_data);
 
+    // Make sure it was not stored for another text with the same hash
+    if( data.mv_size < HANDLEBARS_MODULE_SIZE + hbs_str_len(tmpl) ||
+            module->size != data.mv_size - hbs_str_len(tmpl) ||
+            0 != memcmp((char *) data.mv_data + module->size, hbs_str_val(tmpl), hbs_str_len(tmpl)) ) {
+        intern->stat.misses++;
+        goto error;
+    }
+
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
     handlebars_module_verify(module, CONTEXT);
@@ -226,15 +234,17 @@ static void cache_add(
     }
 
     // Normalize pointers
-    module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    module_copy = handlebars_talloc_size(CONTEXT, module->size + hbs_str_len(tmpl));
+    HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
     handlebars_module_normalize_pointers(module_copy, (void *) 0);
     handlebars_module_generate_hash(module_copy);
 
-    // Make data
-    data.mv_size = module_copy->size;
+    // Make data: the module followed by the text it was compiled from
+    memcpy((char *) module_copy + module->size, hbs_str_val(tmpl), hbs_str_len(tmpl));
+    data.mv_size = module_copy->size + hbs_str_len(tmpl);
     data.mv_data = module_copy;
 
     // Store
-- 
2.43.0


From 12d56667e6afe9e5cf82666189a836260563d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 19/73] fix: LMDB cache: neither a full database nor a text of
 511 bytes makes rendering fail

---
 src/handlebars_cache_lmdb.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 12f2bd9..c22ca13 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -136,7 +136,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+    if( hbs_str_len(tmpl) + 1 > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
         snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
         key.mv_size = strlen(tmp);
         key.mv_data = tmp;
@@ -224,7 +224,7 @@ static void cache_add(
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+    if( hbs_str_len(tmpl) + 1 > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
         snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
         key.mv_size = strlen(tmp);
         key.mv_data = tmp;
@@ -254,13 +254,19 @@ static void cache_add(
 
     // Commit
     err = mdb_txn_commit(txn);
+    txn = NULL;
     if( err != 0 ) goto error;
 
     return;
 
 error:
-    mdb_txn_abort(txn);
-    HANDLE_RC(err);
+    if( txn ) {
+        mdb_txn_abort(txn);
+    }
+    // A full database is not an error, the template is just not cached
+    if( err != MDB_MAP_FULL && err != MDB_TXN_FULL ) {
+        HANDLE_RC(err);
+    }
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
-- 
2.43.0


From 8f4cb28555a348ebb2dbaa67f8a2851e7b80bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 20/73] fix: give each iteration of each a link to the data
 variables outside of it, for @../index

---
 src/handlebars_helpers.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..3654b58 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,13 +102,14 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 5);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
         } else {
-            data_map = handlebars_map_ctor(CONTEXT, 4);
+            data_map = handlebars_map_ctor(CONTEXT, 5);
         }
+        data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         handlebars_map_addref(data_map);
     }
 
-- 
2.43.0


From 2838f497daa4605266cf2143b481a24093a11504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 21/73] fix: with runs its inverse in the surrounding context,
 and for every empty value

---
 src/handlebars_helpers.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 3654b58..8e04775 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -347,8 +347,10 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 
     assert(context != NULL);
 
-    if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_NULL ) {
-        result_str = handlebars_vm_execute_program(vm, options->inverse, context);
+    bool is_zero = handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(context) == 0;
+
+    if( handlebars_value_is_empty(context) && !is_zero ) {
+        result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
     } else {
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
         handlebars_value_array_set(block_params, 0, context);
-- 
2.43.0


From b3503db02bba756e8a069231abc7c47b3519ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 22/73] fix: lookup of an index outside of the array does not
 crash

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 8e04775..47b67cc 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -266,7 +266,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
         }
     }
 
-- 
2.43.0


From 24c0b5315e7804028d0ebc2ac65343e436f7248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 23/73] fix: unless evaluates callables and honours includeZero
 like if does, and includeZero=false is not set

---
 src/handlebars_helpers.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 47b67cc..bead25d 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -276,9 +276,11 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
 struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 {
     struct handlebars_value * conditional = &argv[0];
+    struct handlebars_value * include_zero;
     long program;
     struct handlebars_string * result_str = NULL;
     HANDLEBARS_VALUE_DECL(rv2);
+    HANDLEBARS_VALUE_DECL(rv3);
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#if requires exactly one argument");
@@ -296,7 +298,8 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
         program = options->program;
     } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
             handlebars_value_get_intval(conditional) == 0 &&
-            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) ) {
+            NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv3)) &&
+            !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
     } else {
         program = options->inverse;
@@ -305,6 +308,7 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
     result_str = handlebars_vm_execute_program(vm, program, options->scope);
     handlebars_value_str(rv, result_str);
 
+    HANDLEBARS_VALUE_UNDECL(rv3);
     HANDLEBARS_VALUE_UNDECL(rv2);
 
     return rv;
@@ -312,16 +316,16 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
 struct handlebars_value * handlebars_builtin_unless(HANDLEBARS_HELPER_ARGS)
 {
-    struct handlebars_value * conditional;
+    long program;
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#unless requires exactly one argument");
     }
 
-    conditional = &argv[0];
-    assert(conditional != NULL);
-
-    handlebars_value_boolean(conditional, handlebars_value_is_empty(conditional));
+    // It is #if with the branches exchanged
+    program = options->program;
+    options->program = options->inverse;
+    options->inverse = program;
 
     return handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
 }
-- 
2.43.0


From a862a8d6fdb018f75a5e9646dff4bb66116dee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 24/73] fix: a data variable path that goes above the outermost
 frame designates nothing

---
 src/handlebars_vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 22d8832..793982e 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1063,9 +1063,11 @@ ACCEPT_FUNCTION(lookup_data)
     if( depth && data ) {
         while( data && depth-- ) {
             tmp = handlebars_value_map_str_find(data, HBS_STRL("_parent"), rv);
-            if (tmp != NULL) {
-                handlebars_value_value(data, tmp);
+            if (tmp == NULL) {
+                handlebars_value_null(data);
+                break;
             }
+            handlebars_value_value(data, tmp);
         }
     }
 
-- 
2.43.0


From 855e86e2d29166d5ca89cafa7e2a88160d2c250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 25/73] fix: reuse tombstones when adding to a map

The first tombstone on the probe path was recorded but never marked as found,
so once the table held no untouched slot (add, remove, iterate, repeat) adding
a key failed with "Failed to add to hash table".
---
 src/handlebars_map.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..a3a91cd 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -188,13 +188,15 @@ static inline struct ht_find_result map_find_entry(
     for (i = 0; i < table_capacity; i++) {
         pos = (start + i) % table_capacity;
         if (!table[pos]) {
-            ret.empty_found = true;
-            ret.empty_offset = pos;
+            if (!ret.empty_found) {
+                ret.empty_found = true;
+                ret.empty_offset = pos;
+            }
             break;
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
-- 
2.43.0


From 548798463ea4f599ad66ba94299b28d419c90ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 26/73] fix: keep the entries before the first removed one when
 compacting a map

Compacting started writing at index 1 whatever the position of the first
removed entry, overwriting live entries before it.
---
 src/handlebars_map.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index a3a91cd..0896cdd 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -552,16 +552,15 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
 
     // Scan until the first tombstone
     for (; i < map->vec_offset; i++) {
-        if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
-            i++;
-            vec_offset++;
+        if (!vec[i].key) {
+            vec_offset = i++;
             break;
         }
     }
 
     // Now patch everything
     for (; i < map->vec_offset; i++) {
-        if (0 != memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
+        if (vec[i].key) {
             vec[vec_offset] = vec[i];
             table[vec[vec_offset].table_offset] = &vec[vec_offset];
             vec_offset++;
-- 
2.43.0


From cade49bc5734706535bda324969fac510cfd3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 27/73] fix: failed or self-referential map updates used freed
 memory

Adding a present key freed the caller's map (when it was due a rehash) before
throwing, storing a value that lives in the map itself read it after the rehash
freed it, and adding during iteration wrote past the vector.
---
 src/handlebars_map.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 0896cdd..f9e02d8 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -401,17 +401,27 @@ void handlebars_map_dtor(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // Check before rehashing, the caller still holds the previous map if we throw
+    if (map_find_entry(map, key).entry_found) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
+    // The value may live in the map itself, which rehashing may free
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
     // Add
     struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found) {
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, tmp, o.empty_offset);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return map;
 }
@@ -456,6 +466,10 @@ struct handlebars_value * handlebars_map_find(struct handlebars_map * map, struc
 
 struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // The value may live in the map itself, which rehashing may free
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
@@ -463,16 +477,18 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
     struct ht_find_result o = map_find_entry(map, key);
     struct handlebars_map_entry * entry = o.entry;
     if (entry) {
-        handlebars_value_value(&entry->value, value);
+        handlebars_value_value(&entry->value, tmp);
+        HANDLEBARS_VALUE_UNDECL(tmp);
         return map;
     }
 
-    if (!o.empty_found) {
-        // This should never happen
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
+        // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, tmp, o.empty_offset);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return map;
 }
-- 
2.43.0


From d6186fa37dc7b54de5ade8377c4699389d905b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 28/73] fix: iterating a map inside an iteration of the same
 map aborted the process

{{#each a}}{{#each ../a}}..{{/each}}{{/each}} over an object aborted, a render
that failed inside {{#each}} left the object unusable, and changing a value
while iterating it could read freed memory. The iterator now holds a reference,
so changes made meanwhile go to a copy.
---
 src/handlebars_partial_loader.c | 19 +++++++++----------
 src/handlebars_value.c          | 33 ++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..01df879 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -138,16 +138,15 @@ static bool hbs_partial_loader_iterator_next_void(struct handlebars_value_iterat
 
 static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
 {
-    struct handlebars_partial_loader * intern = GET_INTERN_V(it->value);
-    struct handlebars_map * map = intern->map;
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(handlebars_value_get_type(it->value) == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
-    if( it->index >= handlebars_map_count(map) - 1 ) {
+    if( it->index + 1 >= handlebars_map_count(map) ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
+        handlebars_map_delref(map);
+        it->next = &hbs_partial_loader_iterator_next_void;
         return false;
     }
 
@@ -171,13 +170,12 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     handlebars_map_sparse_array_compact(map); // meh
     it->value = value;
     it->index = 0;
+    // Hold the map, so partials loaded while iterating do not affect us
+    it->usr = map;
+    handlebars_map_addref(map);
     handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
-    if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
-    }
 
     return true;
 }
@@ -212,6 +210,7 @@ struct handlebars_value * handlebars_value_partial_loader_init(
     obj->base_path = talloc_steal(obj, handlebars_string_copy_ctor(context, base_path));
     obj->extension = talloc_steal(obj, handlebars_string_copy_ctor(context, extension));
     obj->map = talloc_steal(obj, handlebars_map_ctor(context, 32));
+    handlebars_map_addref(obj->map);
     talloc_set_destructor(obj, partial_loader_dtor);
     handlebars_value_user(rv, (struct handlebars_user *) obj);
     return rv;
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 025e588..bc03a06 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -828,37 +828,38 @@ static bool handlebars_value_iterator_next_void(struct handlebars_value_iterator
 
 static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterator * it)
 {
-    struct handlebars_value * value = it->value;
+    struct handlebars_stack * stack = (struct handlebars_stack *) it->usr;
 
-    assert(value != NULL);
-    assert(value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
+    assert(stack != NULL);
 
-    if( it->index >= handlebars_stack_count(value->v.stack) - 1 ) {
+    if( it->index + 1 >= handlebars_stack_count(stack) ) {
         handlebars_value_dtor(it->cur);
+        handlebars_stack_delref(stack);
+        it->next = &handlebars_value_iterator_next_void;
         return false;
     }
 
     it->index++;
-    handlebars_value_value(it->cur, handlebars_stack_get(value->v.stack, it->index));
+    handlebars_value_value(it->cur, handlebars_stack_get(stack, it->index));
     return true;
 }
 
 static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
-
+    assert(map != NULL);
 
-    if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
+    if( it->index + 1 >= handlebars_map_count(map) ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
+        handlebars_map_delref(map);
+        it->next = &handlebars_value_iterator_next_void;
         return false;
     }
 
     it->index++;
-    handlebars_map_get_kv_at_index(it->value->v.map, it->index, &it->key, &tmp);
+    handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     return true;
 }
@@ -878,6 +879,9 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             }
             it->value = value;
             it->index = 0;
+            // Hold the array, so changing the value while iterating does not affect us
+            it->usr = value->v.stack;
+            handlebars_stack_addref(value->v.stack);
             handlebars_value_value(it->cur, handlebars_stack_get(value->v.stack, it->index));
             it->next = &handlebars_value_iterator_next_stack;
             return true;
@@ -890,13 +894,12 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_map_sparse_array_compact(value->v.map); // meh
             it->value = value;
             it->index = 0;
+            // Hold the map, so changing the value while iterating does not affect us
+            it->usr = value->v.map;
+            handlebars_map_addref(value->v.map);
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
-            }
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From d9fae79aaec94caefc3c5cf12ecbaebd9d7fa9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 29/73] fix: a partial without a file is a missing partial

The directory partial loader raised its own error for a name with no file, so
compat mode and the fallback body of a partial block did not apply, and a
directory of that name was read as a file of LONG_MAX bytes.
---
 src/handlebars_partial_loader.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 01df879..2c76bb6 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -102,14 +103,21 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
 
     f = fopen(hbs_str_val(filename), "rb");
     if( !f ) {
-        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+        // There is no such partial, what that means is up to the caller
+        handlebars_talloc_free(filename);
+        return NULL;
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if (fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0 || size == LONG_MAX || fseek(f, 0, SEEK_SET) != 0) {
+        fclose(f);
+        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+    }
 
     char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
+    if (!buf) {
+        fclose(f);
+        HANDLEBARS_MEMCHECK(buf, intern->user.ctx);
+    }
     size_t read = fread(buf, size, 1, f);
     fclose(f);
 
-- 
2.43.0


From 885e1ce4d430c8403928d947448b8b733b8a3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 30/73] fix: compare strings by all of their bytes

Equality was decided by length and 32 bit hash alone, so colliding keys and
templates were confused, and searches stopped comparing at a NUL byte.
---
 src/handlebars_string.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..858b72c 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -334,7 +334,8 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2)
+            && 0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
@@ -370,19 +371,19 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
 {
-    const char * end = haystack + haystack_len - needle_len;
-
-    if( !needle_len || !haystack_len ) {
+    if( !needle_len || needle_len > haystack_len ) {
         return NULL;
     }
 
+    const char * end = haystack + haystack_len - needle_len;
+
     for( ; haystack <= end; haystack++ ) {
-        if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
+        if( haystack[0] == needle[0] && memcmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
         }
     }
-- 
2.43.0


From b9384c9a77e0b7cf32ab6df181832311beab1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 31/73] fix: trimming a string left its cached hash behind

A trimmed string compared unequal to the same text, and ltrim stopped at a NUL.
---
 src/handlebars_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 858b72c..1c72fc4 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -821,13 +821,14 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
     }
 
     ptr = string->val;
-    while( *ptr && flags[(unsigned char) *ptr] ) {
+    while( string->len > 0 && flags[(unsigned char) *ptr] ) {
         ++ptr;
         --string->len;
     }
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -857,6 +858,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
     while( original > string->val && flags[(unsigned char) *--original] ) {
         --string->len;
         *original = '\0';
+        string->hash = 0;
     }
 
     return string;
-- 
2.43.0


From a8402004049dc5fa85532bd8c03a4ccb8e50fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 32/73] fix: reduce and stripcslashes changed the other holders
 of a shared string

They kept pointers into the original after making their own copy.
---
 src/handlebars_string.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1c72fc4..1038a8b 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -396,13 +396,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
@@ -511,14 +512,17 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
-    char * source = string->val;
-    char * target = string->val;
-    char * end = string->val + string->len;
+    char * source;
+    char * target;
+    char * end;
     size_t nlen = string->len;
     size_t i;
     char numtmp[4];
 
     string = separate_string(string);
+    source = string->val;
+    target = string->val;
+    end = string->val + string->len;
 
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
-- 
2.43.0


From b0575c782ad962a0430a2489efa68034ecfc1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 33/73] fix: out of range truncation, indenting an empty
 string, djbx33a over-read

---
 src/handlebars_string.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1038a8b..a5d3086 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -101,11 +101,10 @@ uint32_t hbs_str_hash(struct handlebars_string * str) {
 uint32_t handlebars_hash_djbx33a(const char * str, size_t len)
 {
     uint32_t hash = 5381;
-    uint32_t c;
     const unsigned char * ptr = (const unsigned char *) str;
     const unsigned char * end = ptr + len;
-    for (c = *ptr++; ptr <= end && c; c = *ptr++) {
-        hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
+    for (; ptr < end; ptr++) {
+        hash = ((hash << 5) + hash) + *ptr; /* hash * 33 + c */
     }
     return hash;
 }
@@ -352,6 +351,9 @@ struct handlebars_string * handlebars_string_truncate(
     }
 
     // Truncate left
+    if (start > string->len) {
+        start = string->len;
+    }
     if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
         string->len -= start;
@@ -775,7 +777,7 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
-    bool endsInLine = (str[str_len - 1] == '\n');
+    bool endsInLine = (str_len > 0 && str[str_len - 1] == '\n');
     size_t i;
     char tmp[2] = "\0";
 
-- 
2.43.0


From 6bf785896f999f53cb0916fdc58818942756b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 34/73] fix: appending a string to itself, releasing a
 compacted string

Appending (part of) a string to itself read the old buffer after it was
reallocated. Compacting by a kilobyte or more lost the block's type name, so
releasing the string aborted, and a failed reallocation returned NULL.
---
 src/handlebars_string.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index a5d3086..e875d6d 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -303,8 +303,17 @@ struct handlebars_string * handlebars_string_append(
     struct handlebars_string * string,
     const char * str, size_t len
 ) {
+    // The text to append may be part of the string itself, which may move
+    size_t offset = (size_t) -1;
+    if (str >= string->val && str <= string->val + string->len) {
+        offset = str - string->val;
+    }
+
     string = separate_string(string);
     string = handlebars_string_extend(context, string, string->len + len);
+    if (offset != (size_t) -1) {
+        str = string->val + offset;
+    }
     string = handlebars_string_append_unsafe(string, str, len);
     return string;
 }
@@ -321,7 +330,11 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        struct handlebars_string * new_string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if (new_string) {
+            string = new_string;
+            talloc_set_type(string, struct handlebars_string);
+        }
     }
     return string;
 }
@@ -690,7 +703,16 @@ struct handlebars_string * handlebars_string_htmlspecialchars_append(
         return string;
     }
 
+    // The text to append may be part of the string itself, which may move
+    size_t offset = (size_t) -1;
+    if (str >= string->val && str <= string->val + string->len) {
+        offset = str - string->val;
+    }
+
     string = separate_string(string);
+    if (offset != (size_t) -1) {
+        str = string->val + offset;
+    }
 
     // Calculate new size
     for( p = str + len - 1; p >= str; p-- ) {
@@ -707,6 +729,9 @@ struct handlebars_string * handlebars_string_htmlspecialchars_append(
 
     // Realloc original buffer
     string = handlebars_string_extend(context, string, string->len + new_len);
+    if (offset != (size_t) -1) {
+        str = string->val + offset;
+    }
 
     // Copy
     for( p = str, end = str + len; p < end; p++ ) {
-- 
2.43.0


From 7408fb2bbe6c479426f65c2194d74c1fb50b82d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 35/73] fix: pushing an element of an array onto the same array
 read freed memory

---
 src/handlebars_stack.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..3bb3583 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -184,6 +184,10 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     assert(stack != NULL);
     assert(value != NULL);
 
+    // The value may live in the stack itself, which growing it may free
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
     if( stack->capacity > stack->i ) {
         // Separate if refcount > 1
         stack = stack_separate(stack);
@@ -203,9 +207,11 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     }
 
     handlebars_value_init(&stack->v[stack->i]);
-    handlebars_value_value(&stack->v[stack->i], value);
+    handlebars_value_value(&stack->v[stack->i], tmp);
     stack->i++;
 
+    HANDLEBARS_VALUE_UNDECL(tmp);
+
     return stack;
 }
 
-- 
2.43.0


From 350b2a72476b8d23c840531dc6871ae9e3825856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 36/73] fix: dumping a deeply nested value aborted, truthiness
 of strings starting with 0 and a NUL byte

---
 src/handlebars_value.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index bc03a06..36d1540 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -247,7 +247,7 @@ bool handlebars_value_get_boolval(struct handlebars_value * value)
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return value->v.lval != 0;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            return hbs_str_len(value->v.string) != 0 && strcmp(hbs_str_val(value->v.string), "0") != 0;
+            return hbs_str_len(value->v.string) != 0 && !hbs_str_eq_strl(value->v.string, HBS_STRL("0"));
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             return handlebars_stack_count(value->v.stack) != 0;
         case HANDLEBARS_VALUE_TYPE_MAP:
@@ -732,7 +732,10 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
     char indent2[0x80];
     HANDLEBARS_MEMCHECK(buf, context);
 
-    assert((depth + 1) * 4 < 0x80);
+    // Stop indenting further when we run out of space
+    if ((depth + 1) * 4 >= 0x80) {
+        depth = 0x80 / 4 - 2;
+    }
 
     size_t indent_len = (depth * 4) & 0x7F;
     memset(indent, ' ', indent_len);
-- 
2.43.0


From 365fd80a6f4176293a7dbc422487a1dcb33e5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 37/73] fix: null and empty containers in JSON data

A null element took over the value of the element before it while iterating,
null members were treated as absent (an error in strict mode), and iterating an
empty object aborted the process.
---
 src/handlebars_json.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..569e7d7 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -145,8 +145,9 @@ static enum handlebars_value_type hbs_json_type(struct handlebars_value * value)
 static struct handlebars_value * hbs_json_map_find(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_object_get(intern->object, hbs_str_val(key));
-    if( item == NULL ) {
+    struct json_object * item;
+    // Keys are C strings, a key containing a NUL byte cannot be present
+    if( strlen(hbs_str_val(key)) != hbs_str_len(key) || !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
@@ -156,10 +157,10 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
-    if( item == NULL ) {
+    if( index >= (size_t) json_object_array_length(intern->object) ) {
         return NULL;
     }
+    struct json_object * item = json_object_array_get_idx(intern->object, index);
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
     return rv;
 }
@@ -224,11 +225,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
     switch( json_object_get_type(intern->object) ) {
         case json_type_object: {
             entry = json_object_get_object(intern->object)->head;
-            if (unlikely(entry == NULL)) { // LCOV_EXCL_START
-                assert(entry != NULL);
+            if (entry == NULL) {
                 it->next = &hbs_json_iterator_next_void;
                 return false;
-            } // LCOV_EXCL_STOP
+            }
             char * tmp = (char *) entry->k;
             it->usr = (void *) entry;
             it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
@@ -240,6 +240,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
 
         case json_type_array:
             it->index = 0;
+            if (json_object_array_length(intern->object) <= 0) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
             it->next = &hbs_json_iterator_next_array;
             return true;
@@ -285,7 +289,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 5d34f1a46a05470893cd2f1e469e4d72dfc58dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 38/73] fix: text after a JSON document was ignored, and a
 document that is a bare number rejected

---
 src/handlebars_json.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 569e7d7..51f6f73 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -333,7 +333,24 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
 
 	obj = json_tokener_parse_ex(tok, str, length);
 	*error = tok->err;
-	if (tok->err != json_tokener_success) {
+	if (tok->err == json_tokener_success) {
+		// Only whitespace and a terminator may follow
+		size_t end = json_tokener_get_parse_end(tok);
+		while (end < length && (str[end] == ' ' || str[end] == '\t' || str[end] == '\r' || str[end] == '\n')) {
+			end++;
+		}
+		if (end < length && !(str[end] == '\0' && end + 1 == length)) {
+			*error = json_tokener_error_parse_unexpected;
+		}
+	} else if (tok->err == json_tokener_continue) {
+		// A number or literal is only complete at the end of the input
+		obj = json_tokener_parse_ex(tok, "", 1);
+		*error = tok->err;
+		if (tok->err == json_tokener_continue) {
+			*error = json_tokener_error_parse_eof;
+		}
+	}
+	if (*error != json_tokener_success) {
 		if (obj != NULL) {
 			json_object_put(obj);
         }
-- 
2.43.0


From a6d9263d08a489104110e2de67910ad581dafbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 39/73] fix: the same JSON object reached twice is the same
 context

{{#with a}}{{#with ../a}}{{../b}} pushed a second context for JSON data but
not for the equivalent native map, so ../ meant different things.
---
 src/handlebars_json.c           | 9 ++++++++-
 src/handlebars_partial_loader.c | 3 ++-
 src/handlebars_value.c          | 7 ++++++-
 src/handlebars_value_handlers.h | 3 +++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 51f6f73..b0b875f 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -270,6 +270,12 @@ static long hbs_json_count(struct handlebars_value * value)
 
 }
 
+static bool hbs_json_eq(struct handlebars_value * value1, struct handlebars_value * value2)
+{
+    // Every access makes a new wrapper, so compare what they wrap
+    return HANDLEBARS_JSON_OBJ(value1) == HANDLEBARS_JSON_OBJ(value2);
+}
+
 static const struct handlebars_value_handlers handlebars_value_hbs_json_handlers = {
     "json",
     &hbs_json_copy,
@@ -280,7 +286,8 @@ static const struct handlebars_value_handlers handlebars_value_hbs_json_handlers
     &hbs_json_array_find,
     &hbs_json_iterator_init,
     NULL, // call
-    &hbs_json_count
+    &hbs_json_count,
+    &hbs_json_eq
 };
 
 void handlebars_value_init_json_object(struct handlebars_context * ctx, struct handlebars_value * value, struct json_object *json)
diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 2c76bb6..6e3b7cf 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -204,7 +204,8 @@ static const struct handlebars_value_handlers handlebars_value_hbs_partial_loade
     NULL, // array_find
     &hbs_partial_loader_iterator_init,
     NULL, // call
-    &hbs_partial_loader_count
+    &hbs_partial_loader_count,
+    NULL // eq
 };
 
 struct handlebars_value * handlebars_value_partial_loader_init(
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 36d1540..49d7490 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -351,7 +351,12 @@ bool handlebars_value_eq(
         case HANDLEBARS_VALUE_TYPE_MAP:
             return value->v.map == value2->v.map;
         case HANDLEBARS_VALUE_TYPE_USER:
-            return value->v.user == value2->v.user;
+            if (value->v.user == value2->v.user) {
+                return true;
+            }
+            return value->v.user->handlers == value2->v.user->handlers
+                && value->v.user->handlers->eq
+                && value->v.user->handlers->eq(value, value2);
         case HANDLEBARS_VALUE_TYPE_HELPER:
             return value->v.helper == value2->v.helper;
         case HANDLEBARS_VALUE_TYPE_PTR:
diff --git a/src/handlebars_value_handlers.h b/src/handlebars_value_handlers.h
index 8ef5202..06de637 100644
--- a/src/handlebars_value_handlers.h
+++ b/src/handlebars_value_handlers.h
@@ -39,6 +39,7 @@ typedef struct handlebars_value * (*handlebars_array_find_func)(struct handlebar
 typedef bool (*handlebars_iterator_init_func)(struct handlebars_value_iterator * it, struct handlebars_value * value);
 typedef struct handlebars_value * (*handlebars_call_func)(struct handlebars_value * value, HANDLEBARS_FUNCTION_ARGS);
 typedef long (*handlebars_count_func)(struct handlebars_value * value);
+typedef bool (*handlebars_eq_func)(struct handlebars_value * value1, struct handlebars_value * value2);
 
 void handlebars_user_init(struct handlebars_user * user, struct handlebars_context * ctx, const struct handlebars_value_handlers * handlers)
     HBS_ATTR_NONNULL_ALL;
@@ -84,6 +85,8 @@ struct handlebars_value_handlers {
     handlebars_iterator_init_func iterator;
     handlebars_call_func call;
     handlebars_count_func count;
+    //! Optional. Whether two values with these handlers are the same object
+    handlebars_eq_func eq;
 };
 
 HBS_EXTERN_C_END
-- 
2.43.0


From f3aba4bb4461ff718ed897026a39fc9b2c0c1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 40/73] fix: YAML with a cyclic alias or a non-scalar key
 crashed the process

---
 src/handlebars_yaml.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..3f39bf4 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -44,8 +44,15 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
-void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+#define HANDLEBARS_YAML_MAX_DEPTH 256
+
+static void value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, int depth)
 {
+    // An alias may refer to the node that contains it
+    if (depth > HANDLEBARS_YAML_MAX_DEPTH) {
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: document is nested too deeply");
+    }
+
     HANDLEBARS_VALUE_DECL(tmp);
     yaml_node_pair_t * pair;
     yaml_node_item_t * item;
@@ -57,8 +64,10 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                if (keyNode->type != YAML_SCALAR_NODE) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: mapping keys must be scalars");
+                }
+                value_init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
             handlebars_value_map(value, map);
@@ -68,7 +77,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             struct handlebars_stack * stack = handlebars_stack_ctor(ctx, node->data.sequence.items.top - node->data.sequence.items.start);
             for( item = node->data.sequence.items.start; item < node->data.sequence.items.top; item++) {
                 yaml_node_t * valueNode = yaml_document_get_node(document, *item);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                value_init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 stack = handlebars_stack_push(stack, tmp);
             }
             handlebars_value_array(value, stack);
@@ -108,6 +117,11 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+{
+    value_init_yaml_node(ctx, value, document, node, 0);
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
-- 
2.43.0


From 89cb278915ff6b355335b91694324ee75b64cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 41/73] fix: YAML scalars that are not numbers

Quoted scalars were converted to numbers and booleans, empty ones to 0, null to
the string "null", nan and infinity to floats, and integers out of range were
clamped.
---
 src/handlebars_yaml.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 3f39bf4..cf2a408 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -19,6 +19,9 @@
 #include "config.h"
 #endif
 
+#include <errno.h>
+#include <stdlib.h>
+#include <string.h>
 #include <yaml.h>
 
 #include "handlebars.h"
@@ -84,7 +87,14 @@ static void value_init_yaml_node(struct handlebars_context *ctx, struct handleba
             break;
         }
         case YAML_SCALAR_NODE:
-            if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
+            if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE ) {
+                // Quoted and block scalars are always strings
+                handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( node->data.scalar.length == 0
+                    || 0 == strcmp((const char *) node->data.scalar.value, "~")
+                    || 0 == strcmp((const char *) node->data.scalar.value, "null") ) {
+                handlebars_value_null(value);
+            } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
@@ -92,14 +102,16 @@ static void value_init_yaml_node(struct handlebars_context *ctx, struct handleba
                 long lval;
                 double dval;
                 // Long
+                errno = 0;
                 lval = strtol((const char *) node->data.scalar.value, &end, 10);
-                if( !*end ) {
+                if( !*end && !errno ) {
                     handlebars_value_integer(value, lval);
                     goto done;
                 }
                 // Double
                 dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
+                // Words such as nan and infinity are strings
+                if( !*end && !strpbrk((const char *) node->data.scalar.value, "nN") ) {
                     handlebars_value_float(value, dval);
                     goto done;
                 }
-- 
2.43.0


From bc1e96cba14629d31d039b130e9c7ee7faf649a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 42/73] fix: delimiter changes without a closing delimiter and
 templates ending in a backslash

The former copied (size_t) -1 bytes, the latter appended a NUL byte.
---
 src/handlebars_delimiters.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..0a325fe 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -90,8 +90,10 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // If current character is a slash, skip one character
                 if( *p == '\\' ) {
                     append(p, 1);
-                    move_forward(1);
-                    append(p, 1);
+                    if( i > 1 ) {
+                        move_forward(1);
+                        append(p, 1);
+                    }
                     continue;
                 }
 
@@ -168,6 +170,11 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain two equals");
                 }
 
+                // No closing delimiter
+                if( p == pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain a closing delimiter");
+                }
+
                 // Scan backwards while whitespace
                 pce = p - 1;
                 while( *pce == ' ' ) {
-- 
2.43.0


From 7783c0dec29b93f4d44d6378d90abe092e3e4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:38 +0000
Subject: [PATCH 43/73] fix: text resembling default tags under custom
 delimiters

It was parsed as a tag when the custom opening delimiter starts with a brace,
gained a backslash when it has three braces, and a short tag that is not closed
was taken for text although the delimiters are the default ones.
---
 src/handlebars_delimiters.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 0a325fe..56c3443 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -68,15 +68,16 @@ struct handlebars_string * handlebars_preprocess_delimiters(
     const char *po = NULL;
     const char *pc = NULL;
     const char *pce = NULL;
-    int starts_with_bracket = 0;
+    bool is_default_open;
 
     // Initialize/duplicate open/close
     if( open == NULL ) {
         open = handlebars_string_ctor(ctx, HBS_STRL("{{"));
     } else {
         open = handlebars_string_copy_ctor(ctx, open);
-        starts_with_bracket = hbs_str_val(open)[0] == '{';
     }
+    is_default_open = hbs_str_eq_strl(open, HBS_STRL("{{"));
+
     if( close == NULL ) {
         close = handlebars_string_ctor(ctx, HBS_STRL("}}"));
     } else {
@@ -113,9 +114,10 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     state = 2; goto state2;
                 }
 
-                // Escape the bracket if our current custom delims aren't brackets
-                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
-                    append("\\", 1);
+                // Escape the brackets if our current custom delims aren't brackets
+                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !is_default_open ) {
+                    append("\\{", 2);
+                    move_forward(1);
                 }
 
                 // This is an escape
@@ -202,7 +204,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 open = new_open;
                 close = new_close;
                 new_open = new_close = NULL;
-                starts_with_bracket = hbs_str_val(open)[0] == '{';
+                is_default_open = hbs_str_eq_strl(open, HBS_STRL("{{"));
 
 #if defined(YYDEBUG)
                 fprintf(stderr, "Delimiter preprocessor: New delimiters: \"%.*s\", \"%.*s\"\n", (int) hbs_str_len(open), hbs_str_val(open), (int) hbs_str_len(close), hbs_str_val(close));
-- 
2.43.0


From c10a1900a5bb2db3d4755e4564342512b47557e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:53 +0000
Subject: [PATCH 44/73] fix: off by one in the compiler's stack checks

The 65th level of blocks was written past the end of the stack, and a failed
compilation left the compiler pointing to a released stack frame.
---
 src/handlebars_compiler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..c66799d 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
@@ -1453,6 +1453,8 @@ void handlebars_compiler_compile(
     // Save jump buffer
     if( !prev ) {
         if( handlebars_setjmp_ex(compiler, &buf) ) {
+            compiler->bps = NULL;
+            compiler->sns = NULL;
             goto done;
         }
     }
-- 
2.43.0


From 29173c32cb441d90848503df64c71a964066005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 45/73] fix: the ignore-standalone flag had no effect

---
 src/handlebars_whitespace.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e423a79..fd90544 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -31,6 +31,7 @@
 
 #include "handlebars_ast.h"
 #include "handlebars_ast_list.h"
+#include "handlebars_compiler.h"
 #include "handlebars_memory.h"
 #include "handlebars_parser.h"
 #include "handlebars_parser_private.h"
@@ -195,7 +196,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
     struct handlebars_ast_list * statements = program->node.program.statements;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     parser->whitespace_root_seen = 1;
 
@@ -311,7 +312,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * firstInverse;
     struct handlebars_ast_node * lastInverse;
     unsigned strip = 0;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     if( block->node.block.program ) {
         handlebars_whitespace_accept(parser, block->node.block.program);
@@ -408,6 +409,7 @@ static inline void handlebars_whitespace_accept_raw_block(struct handlebars_pars
     struct handlebars_ast_node * firstInverse = NULL;
     struct handlebars_ast_node * lastInverse;
     unsigned strip = 0;
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     assert(raw_block != NULL);
     assert(raw_block->type == HANDLEBARS_AST_NODE_RAW_BLOCK);
@@ -463,7 +465,7 @@ static inline void handlebars_whitespace_accept_raw_block(struct handlebars_pars
         }
 
         // Find standalone else statments
-        if( program && firstInverse &&
+        if( do_standalone && program && firstInverse &&
                 handlebars_whitespace_is_prev_whitespace(program->node.program.statements, NULL, 0) &&
                 handlebars_whitespace_is_next_whitespace(firstInverse->node.program.statements, NULL, 0) ) {
             handlebars_whitespace_omit_left(program->node.program.statements, NULL, 0);
-- 
2.43.0


From 54e302181308cb316aa3009dc387465406b5251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:57 +0000
Subject: [PATCH 46/73] fix: ~ in the tags of an else chain strips the branch
 next to it

The strip markers of {{else if}} and of the closing tag of a chain were applied
to the program that holds the chained block, which has no text.
---
 src/handlebars_whitespace.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index fd90544..659461f 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -358,11 +358,11 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
         if( program && inverse_strip & handlebars_ast_strip_flag_left ) {
             handlebars_whitespace_omit_left(program->node.program.statements, NULL, 1);
         }
-        if( inverse_strip & handlebars_ast_strip_flag_right ) {
-            handlebars_whitespace_omit_right(inverse->node.program.statements, NULL, 1);
+        if( firstInverse && inverse_strip & handlebars_ast_strip_flag_right ) {
+            handlebars_whitespace_omit_right(firstInverse->node.program.statements, NULL, 1);
         }
-        if( block->node.block.close_strip & handlebars_ast_strip_flag_left ) {
-            handlebars_whitespace_omit_left(inverse->node.program.statements, NULL, 1);
+        if( lastInverse && block->node.block.close_strip & handlebars_ast_strip_flag_left ) {
+            handlebars_whitespace_omit_left(lastInverse->node.program.statements, NULL, 1);
         }
 
         // Find standalone else statments
-- 
2.43.0


From 7e014c88b776bfdcca3ac0cfa869bd455a262491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 47/73] fix: whitespace control in partial blocks

~ and standalone tags were ignored on {{#> partial}} tags and on every tag in
their bodies.
---
 src/handlebars_whitespace.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 659461f..e50071c 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -261,6 +261,8 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.inverse->node.program.statements, NULL, 0);
                 }
+            } else if( current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK && current->node.partial_block.program ) {
+                handlebars_whitespace_omit_right(current->node.partial_block.program->node.program.statements, NULL, 0);
             }
             handlebars_whitespace_omit_left(statements, current, 0);
         }
@@ -274,6 +276,8 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.program->node.program.statements, NULL, 0);
                 }
+            } else if( current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK && current->node.partial_block.program ) {
+                handlebars_whitespace_omit_left(current->node.partial_block.program->node.program.statements, NULL, 0);
             }
         }
     }
@@ -381,6 +385,35 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     block->strip = strip;
 }
 
+static inline void handlebars_whitespace_accept_partial_block(struct handlebars_parser * parser,
+        struct handlebars_ast_node * block)
+{
+    struct handlebars_ast_node * program = block->node.partial_block.program;
+    unsigned strip = handlebars_ast_strip_flag_set;
+
+    handlebars_whitespace_accept(parser, program);
+
+    strip |= (block->node.partial_block.open_strip & handlebars_ast_strip_flag_left);
+    strip |= (block->node.partial_block.close_strip & handlebars_ast_strip_flag_right);
+
+    if( program ) {
+        if( handlebars_whitespace_is_next_whitespace(program->node.program.statements, NULL, 0) ) {
+            strip |= handlebars_ast_strip_flag_open_standalone;
+        }
+        if( handlebars_whitespace_is_prev_whitespace(program->node.program.statements, NULL, 0) ) {
+            strip |= handlebars_ast_strip_flag_close_standalone;
+        }
+        if( block->node.partial_block.open_strip & handlebars_ast_strip_flag_right ) {
+            handlebars_whitespace_omit_right(program->node.program.statements, NULL, 1);
+        }
+        if( block->node.partial_block.close_strip & handlebars_ast_strip_flag_left ) {
+            handlebars_whitespace_omit_left(program->node.program.statements, NULL, 1);
+        }
+    }
+
+    block->strip = strip;
+}
+
 static inline void handlebars_whitespace_accept_mustache(struct handlebars_parser * parser,
         struct handlebars_ast_node * mustache)
 {
@@ -494,6 +527,8 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
             return handlebars_whitespace_accept_mustache(parser, node);
         case HANDLEBARS_AST_NODE_PROGRAM:
             return handlebars_whitespace_accept_program(parser, node);
+        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
+            return handlebars_whitespace_accept_partial_block(parser, node);
         case HANDLEBARS_AST_NODE_RAW_BLOCK:
             return handlebars_whitespace_accept_raw_block(parser, node);
 
@@ -507,7 +542,6 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
         case HANDLEBARS_AST_NODE_CONTENT:
         case HANDLEBARS_AST_NODE_HASH:
         case HANDLEBARS_AST_NODE_HASH_PAIR:
-        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
         case HANDLEBARS_AST_NODE_NUL:
         case HANDLEBARS_AST_NODE_NUMBER:
         case HANDLEBARS_AST_NODE_PATH:
-- 
2.43.0


From c71468ee4d37bf2eb1055e6a09722b17e47be6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 48/73] fix: comments containing dashes, unterminated comments
 and whitespace in else and block param tags

---
 src/handlebars.l     |   23 +-
 src/handlebars.lex.c | 6360 +++++++++++++++++++++++-------------------
 src/handlebars.lex.h |    8 +-
 3 files changed, 3515 insertions(+), 2876 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b23c252..e975733 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -129,6 +129,9 @@ CONTENT [^\x00\{\\\r\n]*[\r\n]*
 
 WHITESPACE [ \r\n\t]
 
+LCOM_BRK  ("}"|"~"|"~}")
+LCOM_BODY [^-]*"-"([^-]+"-"|"-"+([^-}~][^-]*|{LCOM_BRK}([^-}][^-]*)?)"-")*"-"+
+
 IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
@@ -177,7 +180,7 @@ BLOCKPARAM [\x7C]
 										yy_push_state(mu, yyscanner);
 									}
 
-[\\{}]                              {
+[\\{}\x00]                          {
 										handlebars_yy_copy_lval();
 										return CONTENT;
 									}
@@ -214,13 +217,14 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
-<raw>"{"         	                {
+<raw>[{\x00]      	                {
 										handlebars_yy_copy_lval();
 										return CONTENT;
 									}
 
-<com>"{{"{LEFT_STRIP}?"!--"([-]?[^-])*"--"{RIGHT_STRIP}?"}}" {
+<com>"{{"{LEFT_STRIP}?"!"{LCOM_BODY}{RIGHT_STRIP}?"}}" {
 										// v3.0.3 handlebars.l line 59
+										// (up to the first "--}}" or "--~}}")
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
   										//yytext += 5, yyleng -= 5;
@@ -235,6 +239,13 @@ BLOCKPARAM [\x7C]
   										return COMMENT;
 									}
 
+<com,com1>.|\n						{
+										// Unterminated comment
+										yy_pop_state(yyscanner);
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <mu>"("                          	{
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -285,7 +296,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_ENDBLOCK;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?"^"\s*{RIGHT_STRIP}?"}}"        {
+<mu>"{{"{LEFT_STRIP}?"^"{WHITESPACE}*{RIGHT_STRIP}?"}}"        {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
 										handlebars_yy_copy_lval();
@@ -305,7 +316,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?\s*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
@@ -410,7 +421,7 @@ BLOCKPARAM [\x7C]
 										return DATA;
 									}
 
-<mu>"as"{WHITESPACE}"|"				{
+<mu>"as"{WHITESPACE}+"|"				{
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e18ac8c..505f9c2 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 1 "handlebars.lex.c"
+#line 2 "handlebars.lex.c"
 
-#line 3 "handlebars.lex.c"
+#line 4 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -592,16 +592,16 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20137] =
+static const struct yy_trans_info yy_transition[22926] =
     {
- {   0,   0 }, {   0,19881 }, {   0,   2 }, {   0,19879 }, {   1,3096 },
+ {   0,   0 }, {   0,22670 }, {   0,   2 }, {   0,22668 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19621 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,22410 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19363 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,22152 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19105 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,21894 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,9 +828,9 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18847 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,21636 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
- {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
+ {  10,3794 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
  {  15,3792 }, {  16,3792 }, {  17,3792 }, {  18,3792 }, {  19,3792 },
  {  20,3792 }, {  21,3792 }, {  22,3792 }, {  23,3792 }, {  24,3792 },
@@ -884,10 +884,10 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18589 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,21378 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
- {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
+ {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,3536 }, {  11,3534 },
  {  12,3534 }, {  13,3534 }, {  14,3534 }, {  15,3534 }, {  16,3534 },
  {  17,3534 }, {  18,3534 }, {  19,3534 }, {  20,3534 }, {  21,3534 },
  {  22,3534 }, {  23,3534 }, {  24,3534 }, {  25,3534 }, {  26,3534 },
@@ -942,2362 +942,2394 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18331 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
- {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
- {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
- {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
- {  19,1811 }, {  20,1811 }, {  21,1811 }, {  22,1811 }, {  23,1811 },
- {  24,1811 }, {  25,1811 }, {  26,1811 }, {  27,1811 }, {  28,1811 },
- {  29,1811 }, {  30,1811 }, {  31,1811 }, {  32,1811 }, {  33,1811 },
- {  34,1811 }, {  35,1811 }, {  36,1811 }, {  37,1811 }, {  38,1811 },
- {  39,1811 }, {  40,1811 }, {  41,1811 }, {  42,1811 }, {  43,1811 },
- {  44,1811 }, {  45,1811 }, {  46,1811 }, {  47,1811 }, {  48,1811 },
-
- {  49,1811 }, {  50,1811 }, {  51,1811 }, {  52,1811 }, {  53,1811 },
- {  54,1811 }, {  55,1811 }, {  56,1811 }, {  57,1811 }, {  58,1811 },
- {  59,1811 }, {  60,1811 }, {  61,1811 }, {  62,1811 }, {  63,1811 },
- {  64,1811 }, {  65,1811 }, {  66,1811 }, {  67,1811 }, {  68,1811 },
- {  69,1811 }, {  70,1811 }, {  71,1811 }, {  72,1811 }, {  73,1811 },
- {  74,1811 }, {  75,1811 }, {  76,1811 }, {  77,1811 }, {  78,1811 },
- {  79,1811 }, {  80,1811 }, {  81,1811 }, {  82,1811 }, {  83,1811 },
- {  84,1811 }, {  85,1811 }, {  86,1811 }, {  87,1811 }, {  88,1811 },
- {  89,1811 }, {  90,1811 }, {  91,1811 }, {  92,1811 }, {  93,1811 },
- {  94,1811 }, {  95,1811 }, {  96,1811 }, {  97,1811 }, {  98,1811 },
-
- {  99,1811 }, { 100,1811 }, { 101,1811 }, { 102,1811 }, { 103,1811 },
- { 104,1811 }, { 105,1811 }, { 106,1811 }, { 107,1811 }, { 108,1811 },
- { 109,1811 }, { 110,1811 }, { 111,1811 }, { 112,1811 }, { 113,1811 },
- { 114,1811 }, { 115,1811 }, { 116,1811 }, { 117,1811 }, { 118,1811 },
- { 119,1811 }, { 120,1811 }, { 121,1811 }, { 122,1811 }, { 123,3278 },
- { 124,1811 }, { 125,1811 }, { 126,1811 }, { 127,1811 }, { 128,1811 },
- { 129,1811 }, { 130,1811 }, { 131,1811 }, { 132,1811 }, { 133,1811 },
- { 134,1811 }, { 135,1811 }, { 136,1811 }, { 137,1811 }, { 138,1811 },
- { 139,1811 }, { 140,1811 }, { 141,1811 }, { 142,1811 }, { 143,1811 },
- { 144,1811 }, { 145,1811 }, { 146,1811 }, { 147,1811 }, { 148,1811 },
-
- { 149,1811 }, { 150,1811 }, { 151,1811 }, { 152,1811 }, { 153,1811 },
- { 154,1811 }, { 155,1811 }, { 156,1811 }, { 157,1811 }, { 158,1811 },
- { 159,1811 }, { 160,1811 }, { 161,1811 }, { 162,1811 }, { 163,1811 },
- { 164,1811 }, { 165,1811 }, { 166,1811 }, { 167,1811 }, { 168,1811 },
- { 169,1811 }, { 170,1811 }, { 171,1811 }, { 172,1811 }, { 173,1811 },
- { 174,1811 }, { 175,1811 }, { 176,1811 }, { 177,1811 }, { 178,1811 },
- { 179,1811 }, { 180,1811 }, { 181,1811 }, { 182,1811 }, { 183,1811 },
- { 184,1811 }, { 185,1811 }, { 186,1811 }, { 187,1811 }, { 188,1811 },
- { 189,1811 }, { 190,1811 }, { 191,1811 }, { 192,1811 }, { 193,1811 },
- { 194,1811 }, { 195,1811 }, { 196,1811 }, { 197,1811 }, { 198,1811 },
-
- { 199,1811 }, { 200,1811 }, { 201,1811 }, { 202,1811 }, { 203,1811 },
- { 204,1811 }, { 205,1811 }, { 206,1811 }, { 207,1811 }, { 208,1811 },
- { 209,1811 }, { 210,1811 }, { 211,1811 }, { 212,1811 }, { 213,1811 },
- { 214,1811 }, { 215,1811 }, { 216,1811 }, { 217,1811 }, { 218,1811 },
- { 219,1811 }, { 220,1811 }, { 221,1811 }, { 222,1811 }, { 223,1811 },
- { 224,1811 }, { 225,1811 }, { 226,1811 }, { 227,1811 }, { 228,1811 },
- { 229,1811 }, { 230,1811 }, { 231,1811 }, { 232,1811 }, { 233,1811 },
- { 234,1811 }, { 235,1811 }, { 236,1811 }, { 237,1811 }, { 238,1811 },
- { 239,1811 }, { 240,1811 }, { 241,1811 }, { 242,1811 }, { 243,1811 },
- { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
-
- { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18073 },
- {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
- {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
- {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
- {  16,1553 }, {  17,1553 }, {  18,1553 }, {  19,1553 }, {  20,1553 },
- {  21,1553 }, {  22,1553 }, {  23,1553 }, {  24,1553 }, {  25,1553 },
- {  26,1553 }, {  27,1553 }, {  28,1553 }, {  29,1553 }, {  30,1553 },
- {  31,1553 }, {  32,1553 }, {  33,1553 }, {  34,1553 }, {  35,1553 },
- {  36,1553 }, {  37,1553 }, {  38,1553 }, {  39,1553 }, {  40,1553 },
-
- {  41,1553 }, {  42,1553 }, {  43,1553 }, {  44,1553 }, {  45,1553 },
- {  46,1553 }, {  47,1553 }, {  48,1553 }, {  49,1553 }, {  50,1553 },
- {  51,1553 }, {  52,1553 }, {  53,1553 }, {  54,1553 }, {  55,1553 },
- {  56,1553 }, {  57,1553 }, {  58,1553 }, {  59,1553 }, {  60,1553 },
- {  61,1553 }, {  62,1553 }, {  63,1553 }, {  64,1553 }, {  65,1553 },
- {  66,1553 }, {  67,1553 }, {  68,1553 }, {  69,1553 }, {  70,1553 },
- {  71,1553 }, {  72,1553 }, {  73,1553 }, {  74,1553 }, {  75,1553 },
- {  76,1553 }, {  77,1553 }, {  78,1553 }, {  79,1553 }, {  80,1553 },
- {  81,1553 }, {  82,1553 }, {  83,1553 }, {  84,1553 }, {  85,1553 },
- {  86,1553 }, {  87,1553 }, {  88,1553 }, {  89,1553 }, {  90,1553 },
-
- {  91,1553 }, {  92,1553 }, {  93,1553 }, {  94,1553 }, {  95,1553 },
- {  96,1553 }, {  97,1553 }, {  98,1553 }, {  99,1553 }, { 100,1553 },
- { 101,1553 }, { 102,1553 }, { 103,1553 }, { 104,1553 }, { 105,1553 },
- { 106,1553 }, { 107,1553 }, { 108,1553 }, { 109,1553 }, { 110,1553 },
- { 111,1553 }, { 112,1553 }, { 113,1553 }, { 114,1553 }, { 115,1553 },
- { 116,1553 }, { 117,1553 }, { 118,1553 }, { 119,1553 }, { 120,1553 },
- { 121,1553 }, { 122,1553 }, { 123,3020 }, { 124,1553 }, { 125,1553 },
- { 126,1553 }, { 127,1553 }, { 128,1553 }, { 129,1553 }, { 130,1553 },
- { 131,1553 }, { 132,1553 }, { 133,1553 }, { 134,1553 }, { 135,1553 },
- { 136,1553 }, { 137,1553 }, { 138,1553 }, { 139,1553 }, { 140,1553 },
-
- { 141,1553 }, { 142,1553 }, { 143,1553 }, { 144,1553 }, { 145,1553 },
- { 146,1553 }, { 147,1553 }, { 148,1553 }, { 149,1553 }, { 150,1553 },
- { 151,1553 }, { 152,1553 }, { 153,1553 }, { 154,1553 }, { 155,1553 },
- { 156,1553 }, { 157,1553 }, { 158,1553 }, { 159,1553 }, { 160,1553 },
- { 161,1553 }, { 162,1553 }, { 163,1553 }, { 164,1553 }, { 165,1553 },
- { 166,1553 }, { 167,1553 }, { 168,1553 }, { 169,1553 }, { 170,1553 },
- { 171,1553 }, { 172,1553 }, { 173,1553 }, { 174,1553 }, { 175,1553 },
- { 176,1553 }, { 177,1553 }, { 178,1553 }, { 179,1553 }, { 180,1553 },
- { 181,1553 }, { 182,1553 }, { 183,1553 }, { 184,1553 }, { 185,1553 },
- { 186,1553 }, { 187,1553 }, { 188,1553 }, { 189,1553 }, { 190,1553 },
-
- { 191,1553 }, { 192,1553 }, { 193,1553 }, { 194,1553 }, { 195,1553 },
- { 196,1553 }, { 197,1553 }, { 198,1553 }, { 199,1553 }, { 200,1553 },
- { 201,1553 }, { 202,1553 }, { 203,1553 }, { 204,1553 }, { 205,1553 },
- { 206,1553 }, { 207,1553 }, { 208,1553 }, { 209,1553 }, { 210,1553 },
- { 211,1553 }, { 212,1553 }, { 213,1553 }, { 214,1553 }, { 215,1553 },
- { 216,1553 }, { 217,1553 }, { 218,1553 }, { 219,1553 }, { 220,1553 },
- { 221,1553 }, { 222,1553 }, { 223,1553 }, { 224,1553 }, { 225,1553 },
- { 226,1553 }, { 227,1553 }, { 228,1553 }, { 229,1553 }, { 230,1553 },
- { 231,1553 }, { 232,1553 }, { 233,1553 }, { 234,1553 }, { 235,1553 },
- { 236,1553 }, { 237,1553 }, { 238,1553 }, { 239,1553 }, { 240,1553 },
-
- { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
- { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
- { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17815 }, {   1,4595 }, {   2,4595 },
- {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
- {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
- {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
- {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 }, {  22,4595 },
- {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 }, {  27,4595 },
- {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 }, {  32,4595 },
-
- {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 }, {  37,4595 },
- {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 }, {  42,4595 },
- {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 }, {  47,4595 },
- {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 }, {  52,4595 },
- {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 }, {  57,4595 },
- {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 }, {  62,4595 },
- {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 }, {  67,4595 },
- {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 }, {  72,4595 },
- {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 }, {  77,4595 },
- {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 }, {  82,4595 },
-
- {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 }, {  87,4595 },
- {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 }, {  92,4595 },
- {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 }, {  97,4595 },
- {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 }, { 102,4595 },
- { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 }, { 107,4595 },
- { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 }, { 112,4595 },
- { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 }, { 117,4595 },
- { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 }, { 122,4595 },
- { 123,4595 }, { 124,4595 }, { 125,4853 }, { 126,4595 }, { 127,4595 },
- { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 }, { 132,4595 },
-
- { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 }, { 137,4595 },
- { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 }, { 142,4595 },
- { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 }, { 147,4595 },
- { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 }, { 152,4595 },
- { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 }, { 157,4595 },
- { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 }, { 162,4595 },
- { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 }, { 167,4595 },
- { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 }, { 172,4595 },
- { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 }, { 177,4595 },
- { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 }, { 182,4595 },
-
- { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 }, { 187,4595 },
- { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 }, { 192,4595 },
- { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 }, { 197,4595 },
- { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 }, { 202,4595 },
- { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 }, { 207,4595 },
- { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 }, { 212,4595 },
- { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 }, { 217,4595 },
- { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 }, { 222,4595 },
- { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 }, { 227,4595 },
- { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 }, { 232,4595 },
-
- { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 }, { 237,4595 },
- { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 }, { 242,4595 },
- { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
- { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
- { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17557 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
- {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
- {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
- {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
- {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 }, {  24,4337 },
-
- {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 }, {  29,4337 },
- {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 }, {  34,4337 },
- {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 }, {  39,4337 },
- {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 }, {  44,4337 },
- {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 }, {  49,4337 },
- {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 },
- {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 }, {  59,4337 },
- {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 }, {  64,4337 },
- {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 }, {  69,4337 },
- {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 }, {  74,4337 },
-
- {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 }, {  79,4337 },
- {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 }, {  84,4337 },
- {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 }, {  89,4337 },
- {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 }, {  94,4337 },
- {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 }, {  99,4337 },
- { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 }, { 104,4337 },
- { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 }, { 109,4337 },
- { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 }, { 114,4337 },
- { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 }, { 119,4337 },
- { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4337 }, { 124,4337 },
-
- { 125,4595 }, { 126,4337 }, { 127,4337 }, { 128,4337 }, { 129,4337 },
- { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 }, { 134,4337 },
- { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 }, { 139,4337 },
- { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 }, { 144,4337 },
- { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 }, { 149,4337 },
- { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 }, { 154,4337 },
- { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 }, { 159,4337 },
- { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 }, { 164,4337 },
- { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 }, { 169,4337 },
- { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 }, { 174,4337 },
-
- { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 }, { 179,4337 },
- { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 }, { 184,4337 },
- { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 }, { 189,4337 },
- { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 }, { 194,4337 },
- { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 }, { 199,4337 },
- { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 }, { 204,4337 },
- { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 }, { 209,4337 },
- { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 }, { 214,4337 },
- { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 }, { 219,4337 },
- { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 }, { 224,4337 },
-
- { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 }, { 229,4337 },
- { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 }, { 234,4337 },
- { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 }, { 239,4337 },
- { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
- { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
- { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17299 }, {   1,4595 },
- {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
- {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
- {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
-
- {  17,4595 }, {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 },
- {  22,4595 }, {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 },
- {  27,4595 }, {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 },
- {  32,4595 }, {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 },
- {  37,4595 }, {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 },
- {  42,4595 }, {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 },
- {  47,4595 }, {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 },
- {  52,4595 }, {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 },
- {  57,4595 }, {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 },
- {  62,4595 }, {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 },
-
- {  67,4595 }, {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 },
- {  72,4595 }, {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 },
- {  77,4595 }, {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 },
- {  82,4595 }, {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 },
- {  87,4595 }, {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 },
- {  92,4595 }, {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 },
- {  97,4595 }, {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 },
- { 102,4595 }, { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 },
- { 107,4595 }, { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 },
- { 112,4595 }, { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 },
-
- { 117,4595 }, { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 },
- { 122,4595 }, { 123,4852 }, { 124,4595 }, { 125,4595 }, { 126,4595 },
- { 127,4595 }, { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 },
- { 132,4595 }, { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 },
- { 137,4595 }, { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 },
- { 142,4595 }, { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 },
- { 147,4595 }, { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 },
- { 152,4595 }, { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 },
- { 157,4595 }, { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 },
- { 162,4595 }, { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 },
-
- { 167,4595 }, { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 },
- { 172,4595 }, { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 },
- { 177,4595 }, { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 },
- { 182,4595 }, { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 },
- { 187,4595 }, { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 },
- { 192,4595 }, { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 },
- { 197,4595 }, { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 },
- { 202,4595 }, { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 },
- { 207,4595 }, { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 },
- { 212,4595 }, { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 },
-
- { 217,4595 }, { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 },
- { 222,4595 }, { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 },
- { 227,4595 }, { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 },
- { 232,4595 }, { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 },
- { 237,4595 }, { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 },
- { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
- { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
- { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17041 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
- {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
-
- {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
- {  14,4337 }, {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 },
- {  19,4337 }, {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 },
- {  24,4337 }, {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 },
- {  29,4337 }, {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 },
- {  34,4337 }, {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 },
- {  39,4337 }, {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 },
- {  44,4337 }, {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 },
- {  49,4337 }, {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 },
- {  54,4337 }, {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 },
-
- {  59,4337 }, {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 },
- {  64,4337 }, {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 },
- {  69,4337 }, {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 },
- {  74,4337 }, {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 },
- {  79,4337 }, {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 },
- {  84,4337 }, {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 },
- {  89,4337 }, {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 },
- {  94,4337 }, {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 },
- {  99,4337 }, { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 },
- { 104,4337 }, { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 },
-
- { 109,4337 }, { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 },
- { 114,4337 }, { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 },
- { 119,4337 }, { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4594 },
- { 124,4337 }, { 125,4337 }, { 126,4337 }, { 127,4337 }, { 128,4337 },
- { 129,4337 }, { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 },
- { 134,4337 }, { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 },
- { 139,4337 }, { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 },
- { 144,4337 }, { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 },
- { 149,4337 }, { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 },
- { 154,4337 }, { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 },
-
- { 159,4337 }, { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 },
- { 164,4337 }, { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 },
- { 169,4337 }, { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 },
- { 174,4337 }, { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 },
- { 179,4337 }, { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 },
- { 184,4337 }, { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 },
- { 189,4337 }, { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 },
- { 194,4337 }, { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 },
- { 199,4337 }, { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 },
- { 204,4337 }, { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 },
-
- { 209,4337 }, { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 },
- { 214,4337 }, { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 },
- { 219,4337 }, { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 },
- { 224,4337 }, { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 },
- { 229,4337 }, { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 },
- { 234,4337 }, { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 },
- { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
- { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
- { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16783 },
-
- {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
- {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
- {  11,4461 }, {  12,4461 }, {  13,4338 }, {  14,4461 }, {  15,4461 },
- {  16,4461 }, {  17,4461 }, {  18,4461 }, {  19,4461 }, {  20,4461 },
- {  21,4461 }, {  22,4461 }, {  23,4461 }, {  24,4461 }, {  25,4461 },
- {  26,4461 }, {  27,4461 }, {  28,4461 }, {  29,4461 }, {  30,4461 },
- {  31,4461 }, {  32,4461 }, {  33,4461 }, {  34,4461 }, {  35,4461 },
- {  36,4461 }, {  37,4461 }, {  38,4461 }, {  39,4461 }, {  40,4461 },
- {  41,4461 }, {  42,4461 }, {  43,4461 }, {  44,4461 }, {  45,4461 },
- {  46,4461 }, {  47,4461 }, {  48,4461 }, {  49,4461 }, {  50,4461 },
-
- {  51,4461 }, {  52,4461 }, {  53,4461 }, {  54,4461 }, {  55,4461 },
- {  56,4461 }, {  57,4461 }, {  58,4461 }, {  59,4461 }, {  60,4461 },
- {  61,4461 }, {  62,4461 }, {  63,4461 }, {  64,4461 }, {  65,4461 },
- {  66,4461 }, {  67,4461 }, {  68,4461 }, {  69,4461 }, {  70,4461 },
- {  71,4461 }, {  72,4461 }, {  73,4461 }, {  74,4461 }, {  75,4461 },
- {  76,4461 }, {  77,4461 }, {  78,4461 }, {  79,4461 }, {  80,4461 },
- {  81,4461 }, {  82,4461 }, {  83,4461 }, {  84,4461 }, {  85,4461 },
- {  86,4461 }, {  87,4461 }, {  88,4461 }, {  89,4461 }, {  90,4461 },
- {  91,4461 }, {  92,4340 }, {  93,4461 }, {  94,4461 }, {  95,4461 },
- {  96,4461 }, {  97,4461 }, {  98,4461 }, {  99,4461 }, { 100,4461 },
-
- { 101,4461 }, { 102,4461 }, { 103,4461 }, { 104,4461 }, { 105,4461 },
- { 106,4461 }, { 107,4461 }, { 108,4461 }, { 109,4461 }, { 110,4461 },
- { 111,4461 }, { 112,4461 }, { 113,4461 }, { 114,4461 }, { 115,4461 },
- { 116,4461 }, { 117,4461 }, { 118,4461 }, { 119,4461 }, { 120,4461 },
- { 121,4461 }, { 122,4461 }, {   0,   0 }, { 124,4461 }, { 125,4461 },
- { 126,4461 }, { 127,4461 }, { 128,4461 }, { 129,4461 }, { 130,4461 },
- { 131,4461 }, { 132,4461 }, { 133,4461 }, { 134,4461 }, { 135,4461 },
- { 136,4461 }, { 137,4461 }, { 138,4461 }, { 139,4461 }, { 140,4461 },
- { 141,4461 }, { 142,4461 }, { 143,4461 }, { 144,4461 }, { 145,4461 },
- { 146,4461 }, { 147,4461 }, { 148,4461 }, { 149,4461 }, { 150,4461 },
-
- { 151,4461 }, { 152,4461 }, { 153,4461 }, { 154,4461 }, { 155,4461 },
- { 156,4461 }, { 157,4461 }, { 158,4461 }, { 159,4461 }, { 160,4461 },
- { 161,4461 }, { 162,4461 }, { 163,4461 }, { 164,4461 }, { 165,4461 },
- { 166,4461 }, { 167,4461 }, { 168,4461 }, { 169,4461 }, { 170,4461 },
- { 171,4461 }, { 172,4461 }, { 173,4461 }, { 174,4461 }, { 175,4461 },
- { 176,4461 }, { 177,4461 }, { 178,4461 }, { 179,4461 }, { 180,4461 },
- { 181,4461 }, { 182,4461 }, { 183,4461 }, { 184,4461 }, { 185,4461 },
- { 186,4461 }, { 187,4461 }, { 188,4461 }, { 189,4461 }, { 190,4461 },
- { 191,4461 }, { 192,4461 }, { 193,4461 }, { 194,4461 }, { 195,4461 },
- { 196,4461 }, { 197,4461 }, { 198,4461 }, { 199,4461 }, { 200,4461 },
-
- { 201,4461 }, { 202,4461 }, { 203,4461 }, { 204,4461 }, { 205,4461 },
- { 206,4461 }, { 207,4461 }, { 208,4461 }, { 209,4461 }, { 210,4461 },
- { 211,4461 }, { 212,4461 }, { 213,4461 }, { 214,4461 }, { 215,4461 },
- { 216,4461 }, { 217,4461 }, { 218,4461 }, { 219,4461 }, { 220,4461 },
- { 221,4461 }, { 222,4461 }, { 223,4461 }, { 224,4461 }, { 225,4461 },
- { 226,4461 }, { 227,4461 }, { 228,4461 }, { 229,4461 }, { 230,4461 },
- { 231,4461 }, { 232,4461 }, { 233,4461 }, { 234,4461 }, { 235,4461 },
- { 236,4461 }, { 237,4461 }, { 238,4461 }, { 239,4461 }, { 240,4461 },
- { 241,4461 }, { 242,4461 }, { 243,4461 }, { 244,4461 }, { 245,4461 },
- { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
-
- { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16526 }, {   0,   6 }, {   0,16524 }, {   0,   6 },
- {   0,16522 }, {   0,  51 }, {   0,16520 }, {   0,  35 }, {   0,16518 },
- {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16511 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16506 }, {  13,4742 }, {   0,  14 }, {   0,16503 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16499 }, {  13,4735 },
- {   0,  34 }, {   0,16496 }, {   0,  31 }, {   0,16494 }, {   0,  40 },
- {   0,16492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4083 }, {   0,   0 },
-
- {  92,4459 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16397 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
- {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
- {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
-
- {  15,4075 }, {  16,4075 }, {  17,4075 }, {  18,4075 }, {  19,4075 },
- {  20,4075 }, {  21,4075 }, {  22,4075 }, {  23,4075 }, {  24,4075 },
- {  25,4075 }, {  26,4075 }, {  27,4075 }, {  28,4075 }, {  29,4075 },
- {  30,4075 }, {  31,4075 }, {  32,4075 }, {  33,4075 }, {  34,4075 },
- {  35,4075 }, {  36,4075 }, {  37,4075 }, {  38,4075 }, {  39,4075 },
- {  40,4075 }, {  41,4075 }, {  42,4075 }, {  43,4075 }, {  44,4075 },
- {  45,4075 }, {  46,4075 }, {  47,4075 }, {  48,4075 }, {  49,4075 },
- {  50,4075 }, {  51,4075 }, {  52,4075 }, {  53,4075 }, {  54,4075 },
- {  55,4075 }, {  56,4075 }, {  57,4075 }, {  58,4075 }, {  59,4075 },
- {  60,4075 }, {  61,4075 }, {  62,4075 }, {  63,4075 }, {  64,4075 },
-
- {  65,4075 }, {  66,4075 }, {  67,4075 }, {  68,4075 }, {  69,4075 },
- {  70,4075 }, {  71,4075 }, {  72,4075 }, {  73,4075 }, {  74,4075 },
- {  75,4075 }, {  76,4075 }, {  77,4075 }, {  78,4075 }, {  79,4075 },
- {  80,4075 }, {  81,4075 }, {  82,4075 }, {  83,4075 }, {  84,4075 },
- {  85,4075 }, {  86,4075 }, {  87,4075 }, {  88,4075 }, {  89,4075 },
- {  90,4075 }, {  91,4075 }, {  92,3954 }, {  93,4075 }, {  94,4075 },
- {  95,4075 }, {  96,4075 }, {  97,4075 }, {  98,4075 }, {  99,4075 },
- { 100,4075 }, { 101,4075 }, { 102,4075 }, { 103,4075 }, { 104,4075 },
- { 105,4075 }, { 106,4075 }, { 107,4075 }, { 108,4075 }, { 109,4075 },
- { 110,4075 }, { 111,4075 }, { 112,4075 }, { 113,4075 }, { 114,4075 },
-
- { 115,4075 }, { 116,4075 }, { 117,4075 }, { 118,4075 }, { 119,4075 },
- { 120,4075 }, { 121,4075 }, { 122,4075 }, {   0,   0 }, { 124,4075 },
- { 125,4075 }, { 126,4075 }, { 127,4075 }, { 128,4075 }, { 129,4075 },
- { 130,4075 }, { 131,4075 }, { 132,4075 }, { 133,4075 }, { 134,4075 },
- { 135,4075 }, { 136,4075 }, { 137,4075 }, { 138,4075 }, { 139,4075 },
- { 140,4075 }, { 141,4075 }, { 142,4075 }, { 143,4075 }, { 144,4075 },
- { 145,4075 }, { 146,4075 }, { 147,4075 }, { 148,4075 }, { 149,4075 },
- { 150,4075 }, { 151,4075 }, { 152,4075 }, { 153,4075 }, { 154,4075 },
- { 155,4075 }, { 156,4075 }, { 157,4075 }, { 158,4075 }, { 159,4075 },
- { 160,4075 }, { 161,4075 }, { 162,4075 }, { 163,4075 }, { 164,4075 },
-
- { 165,4075 }, { 166,4075 }, { 167,4075 }, { 168,4075 }, { 169,4075 },
- { 170,4075 }, { 171,4075 }, { 172,4075 }, { 173,4075 }, { 174,4075 },
- { 175,4075 }, { 176,4075 }, { 177,4075 }, { 178,4075 }, { 179,4075 },
- { 180,4075 }, { 181,4075 }, { 182,4075 }, { 183,4075 }, { 184,4075 },
- { 185,4075 }, { 186,4075 }, { 187,4075 }, { 188,4075 }, { 189,4075 },
- { 190,4075 }, { 191,4075 }, { 192,4075 }, { 193,4075 }, { 194,4075 },
- { 195,4075 }, { 196,4075 }, { 197,4075 }, { 198,4075 }, { 199,4075 },
- { 200,4075 }, { 201,4075 }, { 202,4075 }, { 203,4075 }, { 204,4075 },
- { 205,4075 }, { 206,4075 }, { 207,4075 }, { 208,4075 }, { 209,4075 },
- { 210,4075 }, { 211,4075 }, { 212,4075 }, { 213,4075 }, { 214,4075 },
-
- { 215,4075 }, { 216,4075 }, { 217,4075 }, { 218,4075 }, { 219,4075 },
- { 220,4075 }, { 221,4075 }, { 222,4075 }, { 223,4075 }, { 224,4075 },
- { 225,4075 }, { 226,4075 }, { 227,4075 }, { 228,4075 }, { 229,4075 },
- { 230,4075 }, { 231,4075 }, { 232,4075 }, { 233,4075 }, { 234,4075 },
- { 235,4075 }, { 236,4075 }, { 237,4075 }, { 238,4075 }, { 239,4075 },
- { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
- { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
- { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16140 }, {   1,4106 }, {   2,4106 },
- {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
-
- {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
- {  13,4081 }, {  14,4106 }, {  15,4106 }, {  16,4106 }, {  17,4106 },
- {  18,4106 }, {  19,4106 }, {  20,4106 }, {  21,4106 }, {  22,4106 },
- {  23,4106 }, {  24,4106 }, {  25,4106 }, {  26,4106 }, {  27,4106 },
- {  28,4106 }, {  29,4106 }, {  30,4106 }, {  31,4106 }, {  32,4081 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4106 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4081 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4106 }, {  46,4081 }, {  47,4081 },
- {  48,4106 }, {  49,4106 }, {  50,4106 }, {  51,4106 }, {  52,4106 },
- {  53,4106 }, {  54,4106 }, {  55,4106 }, {  56,4106 }, {  57,4106 },
-
- {  58,4106 }, {   0,   0 }, {   0,   0 }, {  61,4081 }, {   0,   0 },
- {  63,4106 }, {   0,   0 }, {  65,4106 }, {  66,4106 }, {  67,4106 },
- {  68,4106 }, {  69,4106 }, {  70,4106 }, {  71,4106 }, {  72,4106 },
- {  73,4106 }, {  74,4106 }, {  75,4106 }, {  76,4106 }, {  77,4106 },
- {  78,4106 }, {  79,4106 }, {  80,4106 }, {  81,4106 }, {  82,4106 },
- {  83,4106 }, {  84,4106 }, {  85,4106 }, {  86,4106 }, {  87,4106 },
- {  88,4106 }, {  89,4106 }, {  90,4106 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4106 }, {   0,   0 }, {  97,4106 },
- {  98,4106 }, {  99,4106 }, { 100,4106 }, { 101,4106 }, { 102,4106 },
- { 103,4106 }, { 104,4106 }, { 105,4106 }, { 106,4106 }, { 107,4106 },
-
- { 108,4106 }, { 109,4106 }, { 110,4106 }, { 111,4106 }, { 112,4106 },
- { 113,4106 }, { 114,4106 }, { 115,4106 }, { 116,4106 }, { 117,4106 },
- { 118,4106 }, { 119,4106 }, { 120,4106 }, { 121,4106 }, { 122,4106 },
- {   0,   0 }, { 124,4081 }, { 125,4081 }, { 126,4081 }, { 127,4106 },
- { 128,4106 }, { 129,4106 }, { 130,4106 }, { 131,4106 }, { 132,4106 },
- { 133,4106 }, { 134,4106 }, { 135,4106 }, { 136,4106 }, { 137,4106 },
- { 138,4106 }, { 139,4106 }, { 140,4106 }, { 141,4106 }, { 142,4106 },
- { 143,4106 }, { 144,4106 }, { 145,4106 }, { 146,4106 }, { 147,4106 },
- { 148,4106 }, { 149,4106 }, { 150,4106 }, { 151,4106 }, { 152,4106 },
- { 153,4106 }, { 154,4106 }, { 155,4106 }, { 156,4106 }, { 157,4106 },
-
- { 158,4106 }, { 159,4106 }, { 160,4106 }, { 161,4106 }, { 162,4106 },
- { 163,4106 }, { 164,4106 }, { 165,4106 }, { 166,4106 }, { 167,4106 },
- { 168,4106 }, { 169,4106 }, { 170,4106 }, { 171,4106 }, { 172,4106 },
- { 173,4106 }, { 174,4106 }, { 175,4106 }, { 176,4106 }, { 177,4106 },
- { 178,4106 }, { 179,4106 }, { 180,4106 }, { 181,4106 }, { 182,4106 },
- { 183,4106 }, { 184,4106 }, { 185,4106 }, { 186,4106 }, { 187,4106 },
- { 188,4106 }, { 189,4106 }, { 190,4106 }, { 191,4106 }, { 192,4106 },
- { 193,4106 }, { 194,4106 }, { 195,4106 }, { 196,4106 }, { 197,4106 },
- { 198,4106 }, { 199,4106 }, { 200,4106 }, { 201,4106 }, { 202,4106 },
- { 203,4106 }, { 204,4106 }, { 205,4106 }, { 206,4106 }, { 207,4106 },
-
- { 208,4106 }, { 209,4106 }, { 210,4106 }, { 211,4106 }, { 212,4106 },
- { 213,4106 }, { 214,4106 }, { 215,4106 }, { 216,4106 }, { 217,4106 },
- { 218,4106 }, { 219,4106 }, { 220,4106 }, { 221,4106 }, { 222,4106 },
- { 223,4106 }, { 224,4106 }, { 225,4106 }, { 226,4106 }, { 227,4106 },
- { 228,4106 }, { 229,4106 }, { 230,4106 }, { 231,4106 }, { 232,4106 },
- { 233,4106 }, { 234,4106 }, { 235,4106 }, { 236,4106 }, { 237,4106 },
- { 238,4106 }, { 239,4106 }, { 240,4106 }, { 241,4106 }, { 242,4106 },
- { 243,4106 }, { 244,4106 }, { 245,4106 }, { 246,4106 }, { 247,4106 },
- { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
- { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
-
- {   0,15882 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
- {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
- {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
- {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
- {  20,4140 }, {  21,4140 }, {  22,4140 }, {  23,4140 }, {  24,4140 },
- {  25,4140 }, {  26,4140 }, {  27,4140 }, {  28,4140 }, {  29,4140 },
- {  30,4140 }, {  31,4140 }, {  32,4140 }, {  33,4140 }, {  34,4108 },
- {  35,4140 }, {  36,4140 }, {  37,4140 }, {  38,4140 }, {  39,4140 },
- {  40,4140 }, {  41,4140 }, {  42,4140 }, {  43,4140 }, {  44,4140 },
- {  45,4140 }, {  46,4140 }, {  47,4140 }, {  48,4140 }, {  49,4140 },
-
- {  50,4140 }, {  51,4140 }, {  52,4140 }, {  53,4140 }, {  54,4140 },
- {  55,4140 }, {  56,4140 }, {  57,4140 }, {  58,4140 }, {  59,4140 },
- {  60,4140 }, {  61,4140 }, {  62,4140 }, {  63,4140 }, {  64,4140 },
- {  65,4140 }, {  66,4140 }, {  67,4140 }, {  68,4140 }, {  69,4140 },
- {  70,4140 }, {  71,4140 }, {  72,4140 }, {  73,4140 }, {  74,4140 },
- {  75,4140 }, {  76,4140 }, {  77,4140 }, {  78,4140 }, {  79,4140 },
- {  80,4140 }, {  81,4140 }, {  82,4140 }, {  83,4140 }, {  84,4140 },
- {  85,4140 }, {  86,4140 }, {  87,4140 }, {  88,4140 }, {  89,4140 },
- {  90,4140 }, {  91,4140 }, {  92,4398 }, {  93,4140 }, {  94,4140 },
- {  95,4140 }, {  96,4140 }, {  97,4140 }, {  98,4140 }, {  99,4140 },
-
- { 100,4140 }, { 101,4140 }, { 102,4140 }, { 103,4140 }, { 104,4140 },
- { 105,4140 }, { 106,4140 }, { 107,4140 }, { 108,4140 }, { 109,4140 },
- { 110,4140 }, { 111,4140 }, { 112,4140 }, { 113,4140 }, { 114,4140 },
- { 115,4140 }, { 116,4140 }, { 117,4140 }, { 118,4140 }, { 119,4140 },
- { 120,4140 }, { 121,4140 }, { 122,4140 }, { 123,4140 }, { 124,4140 },
- { 125,4140 }, { 126,4140 }, { 127,4140 }, { 128,4140 }, { 129,4140 },
- { 130,4140 }, { 131,4140 }, { 132,4140 }, { 133,4140 }, { 134,4140 },
- { 135,4140 }, { 136,4140 }, { 137,4140 }, { 138,4140 }, { 139,4140 },
- { 140,4140 }, { 141,4140 }, { 142,4140 }, { 143,4140 }, { 144,4140 },
- { 145,4140 }, { 146,4140 }, { 147,4140 }, { 148,4140 }, { 149,4140 },
-
- { 150,4140 }, { 151,4140 }, { 152,4140 }, { 153,4140 }, { 154,4140 },
- { 155,4140 }, { 156,4140 }, { 157,4140 }, { 158,4140 }, { 159,4140 },
- { 160,4140 }, { 161,4140 }, { 162,4140 }, { 163,4140 }, { 164,4140 },
- { 165,4140 }, { 166,4140 }, { 167,4140 }, { 168,4140 }, { 169,4140 },
- { 170,4140 }, { 171,4140 }, { 172,4140 }, { 173,4140 }, { 174,4140 },
- { 175,4140 }, { 176,4140 }, { 177,4140 }, { 178,4140 }, { 179,4140 },
- { 180,4140 }, { 181,4140 }, { 182,4140 }, { 183,4140 }, { 184,4140 },
- { 185,4140 }, { 186,4140 }, { 187,4140 }, { 188,4140 }, { 189,4140 },
- { 190,4140 }, { 191,4140 }, { 192,4140 }, { 193,4140 }, { 194,4140 },
- { 195,4140 }, { 196,4140 }, { 197,4140 }, { 198,4140 }, { 199,4140 },
-
- { 200,4140 }, { 201,4140 }, { 202,4140 }, { 203,4140 }, { 204,4140 },
- { 205,4140 }, { 206,4140 }, { 207,4140 }, { 208,4140 }, { 209,4140 },
- { 210,4140 }, { 211,4140 }, { 212,4140 }, { 213,4140 }, { 214,4140 },
- { 215,4140 }, { 216,4140 }, { 217,4140 }, { 218,4140 }, { 219,4140 },
- { 220,4140 }, { 221,4140 }, { 222,4140 }, { 223,4140 }, { 224,4140 },
- { 225,4140 }, { 226,4140 }, { 227,4140 }, { 228,4140 }, { 229,4140 },
- { 230,4140 }, { 231,4140 }, { 232,4140 }, { 233,4140 }, { 234,4140 },
- { 235,4140 }, { 236,4140 }, { 237,4140 }, { 238,4140 }, { 239,4140 },
- { 240,4140 }, { 241,4140 }, { 242,4140 }, { 243,4140 }, { 244,4140 },
- { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
-
- { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15624 }, {   1,4398 },
- {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
- {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
- {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
- {  17,4398 }, {  18,4398 }, {  19,4398 }, {  20,4398 }, {  21,4398 },
- {  22,4398 }, {  23,4398 }, {  24,4398 }, {  25,4398 }, {  26,4398 },
- {  27,4398 }, {  28,4398 }, {  29,4398 }, {  30,4398 }, {  31,4398 },
- {  32,4398 }, {  33,4398 }, {  34,4398 }, {  35,4398 }, {  36,4398 },
- {  37,4398 }, {  38,4398 }, {  39,3852 }, {  40,4398 }, {  41,4398 },
-
- {  42,4398 }, {  43,4398 }, {  44,4398 }, {  45,4398 }, {  46,4398 },
- {  47,4398 }, {  48,4398 }, {  49,4398 }, {  50,4398 }, {  51,4398 },
- {  52,4398 }, {  53,4398 }, {  54,4398 }, {  55,4398 }, {  56,4398 },
- {  57,4398 }, {  58,4398 }, {  59,4398 }, {  60,4398 }, {  61,4398 },
- {  62,4398 }, {  63,4398 }, {  64,4398 }, {  65,4398 }, {  66,4398 },
- {  67,4398 }, {  68,4398 }, {  69,4398 }, {  70,4398 }, {  71,4398 },
- {  72,4398 }, {  73,4398 }, {  74,4398 }, {  75,4398 }, {  76,4398 },
- {  77,4398 }, {  78,4398 }, {  79,4398 }, {  80,4398 }, {  81,4398 },
- {  82,4398 }, {  83,4398 }, {  84,4398 }, {  85,4398 }, {  86,4398 },
- {  87,4398 }, {  88,4398 }, {  89,4398 }, {  90,4398 }, {  91,4398 },
-
- {  92,4656 }, {  93,4398 }, {  94,4398 }, {  95,4398 }, {  96,4398 },
- {  97,4398 }, {  98,4398 }, {  99,4398 }, { 100,4398 }, { 101,4398 },
- { 102,4398 }, { 103,4398 }, { 104,4398 }, { 105,4398 }, { 106,4398 },
- { 107,4398 }, { 108,4398 }, { 109,4398 }, { 110,4398 }, { 111,4398 },
- { 112,4398 }, { 113,4398 }, { 114,4398 }, { 115,4398 }, { 116,4398 },
- { 117,4398 }, { 118,4398 }, { 119,4398 }, { 120,4398 }, { 121,4398 },
- { 122,4398 }, { 123,4398 }, { 124,4398 }, { 125,4398 }, { 126,4398 },
- { 127,4398 }, { 128,4398 }, { 129,4398 }, { 130,4398 }, { 131,4398 },
- { 132,4398 }, { 133,4398 }, { 134,4398 }, { 135,4398 }, { 136,4398 },
- { 137,4398 }, { 138,4398 }, { 139,4398 }, { 140,4398 }, { 141,4398 },
-
- { 142,4398 }, { 143,4398 }, { 144,4398 }, { 145,4398 }, { 146,4398 },
- { 147,4398 }, { 148,4398 }, { 149,4398 }, { 150,4398 }, { 151,4398 },
- { 152,4398 }, { 153,4398 }, { 154,4398 }, { 155,4398 }, { 156,4398 },
- { 157,4398 }, { 158,4398 }, { 159,4398 }, { 160,4398 }, { 161,4398 },
- { 162,4398 }, { 163,4398 }, { 164,4398 }, { 165,4398 }, { 166,4398 },
- { 167,4398 }, { 168,4398 }, { 169,4398 }, { 170,4398 }, { 171,4398 },
- { 172,4398 }, { 173,4398 }, { 174,4398 }, { 175,4398 }, { 176,4398 },
- { 177,4398 }, { 178,4398 }, { 179,4398 }, { 180,4398 }, { 181,4398 },
- { 182,4398 }, { 183,4398 }, { 184,4398 }, { 185,4398 }, { 186,4398 },
- { 187,4398 }, { 188,4398 }, { 189,4398 }, { 190,4398 }, { 191,4398 },
-
- { 192,4398 }, { 193,4398 }, { 194,4398 }, { 195,4398 }, { 196,4398 },
- { 197,4398 }, { 198,4398 }, { 199,4398 }, { 200,4398 }, { 201,4398 },
- { 202,4398 }, { 203,4398 }, { 204,4398 }, { 205,4398 }, { 206,4398 },
- { 207,4398 }, { 208,4398 }, { 209,4398 }, { 210,4398 }, { 211,4398 },
- { 212,4398 }, { 213,4398 }, { 214,4398 }, { 215,4398 }, { 216,4398 },
- { 217,4398 }, { 218,4398 }, { 219,4398 }, { 220,4398 }, { 221,4398 },
- { 222,4398 }, { 223,4398 }, { 224,4398 }, { 225,4398 }, { 226,4398 },
- { 227,4398 }, { 228,4398 }, { 229,4398 }, { 230,4398 }, { 231,4398 },
- { 232,4398 }, { 233,4398 }, { 234,4398 }, { 235,4398 }, { 236,4398 },
- { 237,4398 }, { 238,4398 }, { 239,4398 }, { 240,4398 }, { 241,4398 },
-
- { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
- { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
- { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15366 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
- {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
- {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
- {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
- {  19,3332 }, {  20,3332 }, {  21,3332 }, {  22,3332 }, {  23,3332 },
- {  24,3332 }, {  25,3332 }, {  26,3332 }, {  27,3332 }, {  28,3332 },
- {  29,3332 }, {  30,3332 }, {  31,3332 }, {  32,3307 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3332 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3307 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3332 }, {  46,3307 }, {  47,3307 }, {  48,4656 },
- {  49,4656 }, {  50,4656 }, {  51,4656 }, {  52,4656 }, {  53,4656 },
- {  54,4656 }, {  55,4656 }, {  56,4656 }, {  57,4656 }, {  58,3332 },
- {   0,   0 }, {   0,   0 }, {  61,3307 }, {   0,   0 }, {  63,3332 },
- {   0,   0 }, {  65,3332 }, {  66,3332 }, {  67,3332 }, {  68,3332 },
- {  69,3332 }, {  70,3332 }, {  71,3332 }, {  72,3332 }, {  73,3332 },
- {  74,3332 }, {  75,3332 }, {  76,3332 }, {  77,3332 }, {  78,3332 },
- {  79,3332 }, {  80,3332 }, {  81,3332 }, {  82,3332 }, {  83,3332 },
-
- {  84,3332 }, {  85,3332 }, {  86,3332 }, {  87,3332 }, {  88,3332 },
- {  89,3332 }, {  90,3332 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3332 }, {   0,   0 }, {  97,3332 }, {  98,3332 },
- {  99,3332 }, { 100,3332 }, { 101,3332 }, { 102,3332 }, { 103,3332 },
- { 104,3332 }, { 105,3332 }, { 106,3332 }, { 107,3332 }, { 108,3332 },
- { 109,3332 }, { 110,3332 }, { 111,3332 }, { 112,3332 }, { 113,3332 },
- { 114,3332 }, { 115,3332 }, { 116,3332 }, { 117,3332 }, { 118,3332 },
- { 119,3332 }, { 120,3332 }, { 121,3332 }, { 122,3332 }, {   0,   0 },
- { 124,3307 }, { 125,3307 }, { 126,3307 }, { 127,3332 }, { 128,3332 },
- { 129,3332 }, { 130,3332 }, { 131,3332 }, { 132,3332 }, { 133,3332 },
-
- { 134,3332 }, { 135,3332 }, { 136,3332 }, { 137,3332 }, { 138,3332 },
- { 139,3332 }, { 140,3332 }, { 141,3332 }, { 142,3332 }, { 143,3332 },
- { 144,3332 }, { 145,3332 }, { 146,3332 }, { 147,3332 }, { 148,3332 },
- { 149,3332 }, { 150,3332 }, { 151,3332 }, { 152,3332 }, { 153,3332 },
- { 154,3332 }, { 155,3332 }, { 156,3332 }, { 157,3332 }, { 158,3332 },
- { 159,3332 }, { 160,3332 }, { 161,3332 }, { 162,3332 }, { 163,3332 },
- { 164,3332 }, { 165,3332 }, { 166,3332 }, { 167,3332 }, { 168,3332 },
- { 169,3332 }, { 170,3332 }, { 171,3332 }, { 172,3332 }, { 173,3332 },
- { 174,3332 }, { 175,3332 }, { 176,3332 }, { 177,3332 }, { 178,3332 },
- { 179,3332 }, { 180,3332 }, { 181,3332 }, { 182,3332 }, { 183,3332 },
-
- { 184,3332 }, { 185,3332 }, { 186,3332 }, { 187,3332 }, { 188,3332 },
- { 189,3332 }, { 190,3332 }, { 191,3332 }, { 192,3332 }, { 193,3332 },
- { 194,3332 }, { 195,3332 }, { 196,3332 }, { 197,3332 }, { 198,3332 },
- { 199,3332 }, { 200,3332 }, { 201,3332 }, { 202,3332 }, { 203,3332 },
- { 204,3332 }, { 205,3332 }, { 206,3332 }, { 207,3332 }, { 208,3332 },
- { 209,3332 }, { 210,3332 }, { 211,3332 }, { 212,3332 }, { 213,3332 },
- { 214,3332 }, { 215,3332 }, { 216,3332 }, { 217,3332 }, { 218,3332 },
- { 219,3332 }, { 220,3332 }, { 221,3332 }, { 222,3332 }, { 223,3332 },
- { 224,3332 }, { 225,3332 }, { 226,3332 }, { 227,3332 }, { 228,3332 },
- { 229,3332 }, { 230,3332 }, { 231,3332 }, { 232,3332 }, { 233,3332 },
-
- { 234,3332 }, { 235,3332 }, { 236,3332 }, { 237,3332 }, { 238,3332 },
- { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
- { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
- { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15108 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
- {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15090 }, {   0,  42 }, {   0,15088 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15059 }, {   0,  50 },
- {   0,15057 }, {   0,   7 }, {   0,15055 }, {   0,  51 }, {   0,15053 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15026 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
- {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
- {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
- {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
- {  19,2992 }, {  20,2992 }, {  21,2992 }, {  22,2992 }, {  23,2992 },
- {  24,2992 }, {  25,2992 }, {  26,2992 }, {  27,2992 }, {  28,2992 },
- {  29,2992 }, {  30,2992 }, {  31,2992 }, {  32,3262 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,2992 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3262 }, { 124,3338 }, { 125,3338 },
-
- { 126,3338 }, {  45,2992 }, {  46,4574 }, {  47,2967 }, {  48,4316 },
- {  49,4316 }, {  50,4316 }, {  51,4316 }, {  52,4316 }, {  53,4316 },
- {  54,4316 }, {  55,4316 }, {  56,4316 }, {  57,4316 }, {  58,2992 },
- { 123,6503 }, {   0,   0 }, {  61,2967 }, {   0,   0 }, {  63,2992 },
- {   0,   0 }, {  65,2992 }, {  66,2992 }, {  67,2992 }, {  68,2992 },
- {  69,2992 }, {  70,2992 }, {  71,2992 }, {  72,2992 }, {  73,2992 },
- {  74,2992 }, {  75,2992 }, {  76,2992 }, {  77,2992 }, {  78,2992 },
- {  79,2992 }, {  80,2992 }, {  81,2992 }, {  82,2992 }, {  83,2992 },
- {  84,2992 }, {  85,2992 }, {  86,2992 }, {  87,2992 }, {  88,2992 },
- {  89,2992 }, {  90,2992 }, {   0,   0 }, { 125,6474 }, { 126,6476 },
-
- { 125,6476 }, {  95,2992 }, { 123,6474 }, {  97,2992 }, {  98,2992 },
- {  99,2992 }, { 100,2992 }, { 101,2992 }, { 102,2992 }, { 103,2992 },
- { 104,2992 }, { 105,2992 }, { 106,2992 }, { 107,2992 }, { 108,2992 },
- { 109,2992 }, { 110,2992 }, { 111,2992 }, { 112,2992 }, { 113,2992 },
- { 114,2992 }, { 115,2992 }, { 116,2992 }, { 117,2992 }, { 118,2992 },
- { 119,2992 }, { 120,2992 }, { 121,2992 }, { 122,2992 }, {   0,   0 },
- { 124,2967 }, { 125,3262 }, { 126,3262 }, { 127,2992 }, { 128,2992 },
- { 129,2992 }, { 130,2992 }, { 131,2992 }, { 132,2992 }, { 133,2992 },
- { 134,2992 }, { 135,2992 }, { 136,2992 }, { 137,2992 }, { 138,2992 },
- { 139,2992 }, { 140,2992 }, { 141,2992 }, { 142,2992 }, { 143,2992 },
-
- { 144,2992 }, { 145,2992 }, { 146,2992 }, { 147,2992 }, { 148,2992 },
- { 149,2992 }, { 150,2992 }, { 151,2992 }, { 152,2992 }, { 153,2992 },
- { 154,2992 }, { 155,2992 }, { 156,2992 }, { 157,2992 }, { 158,2992 },
- { 159,2992 }, { 160,2992 }, { 161,2992 }, { 162,2992 }, { 163,2992 },
- { 164,2992 }, { 165,2992 }, { 166,2992 }, { 167,2992 }, { 168,2992 },
- { 169,2992 }, { 170,2992 }, { 171,2992 }, { 172,2992 }, { 173,2992 },
- { 174,2992 }, { 175,2992 }, { 176,2992 }, { 177,2992 }, { 178,2992 },
- { 179,2992 }, { 180,2992 }, { 181,2992 }, { 182,2992 }, { 183,2992 },
- { 184,2992 }, { 185,2992 }, { 186,2992 }, { 187,2992 }, { 188,2992 },
- { 189,2992 }, { 190,2992 }, { 191,2992 }, { 192,2992 }, { 193,2992 },
-
- { 194,2992 }, { 195,2992 }, { 196,2992 }, { 197,2992 }, { 198,2992 },
- { 199,2992 }, { 200,2992 }, { 201,2992 }, { 202,2992 }, { 203,2992 },
- { 204,2992 }, { 205,2992 }, { 206,2992 }, { 207,2992 }, { 208,2992 },
- { 209,2992 }, { 210,2992 }, { 211,2992 }, { 212,2992 }, { 213,2992 },
- { 214,2992 }, { 215,2992 }, { 216,2992 }, { 217,2992 }, { 218,2992 },
- { 219,2992 }, { 220,2992 }, { 221,2992 }, { 222,2992 }, { 223,2992 },
- { 224,2992 }, { 225,2992 }, { 226,2992 }, { 227,2992 }, { 228,2992 },
- { 229,2992 }, { 230,2992 }, { 231,2992 }, { 232,2992 }, { 233,2992 },
- { 234,2992 }, { 235,2992 }, { 236,2992 }, { 237,2992 }, { 238,2992 },
- { 239,2992 }, { 240,2992 }, { 241,2992 }, { 242,2992 }, { 243,2992 },
-
- { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
- { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14768 },
- {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
- {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
- {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
- {  16,4375 }, {  17,4375 }, {  18,4375 }, {  19,4375 }, {  20,4375 },
- {  21,4375 }, {  22,4375 }, {  23,4375 }, {  24,4375 }, {  25,4375 },
- {  26,4375 }, {  27,4375 }, {  28,4375 }, {  29,4375 }, {  30,4375 },
- {  31,4375 }, {  32,4375 }, {  33,4375 }, {  34,4375 }, {  35,4375 },
-
- {  36,4375 }, {  37,4375 }, {  38,4375 }, {  39,4375 }, {  40,4375 },
- {  41,4375 }, {  42,4375 }, {  43,4375 }, {  44,4375 }, {  45,4375 },
- {  46,4375 }, {  47,4375 }, {  48,4375 }, {  49,4375 }, {  50,4375 },
- {  51,4375 }, {  52,4375 }, {  53,4375 }, {  54,4375 }, {  55,4375 },
- {  56,4375 }, {  57,4375 }, {  58,4375 }, {  59,4375 }, {  60,4375 },
- {  61,4375 }, {  62,4375 }, {  63,4375 }, {  64,4375 }, {  65,4375 },
- {  66,4375 }, {  67,4375 }, {  68,4375 }, {  69,4375 }, {  70,4375 },
- {  71,4375 }, {  72,4375 }, {  73,4375 }, {  74,4375 }, {  75,4375 },
- {  76,4375 }, {  77,4375 }, {  78,4375 }, {  79,4375 }, {  80,4375 },
- {  81,4375 }, {  82,4375 }, {  83,4375 }, {  84,4375 }, {  85,4375 },
-
- {  86,4375 }, {  87,4375 }, {  88,4375 }, {  89,4375 }, {  90,4375 },
- {  91,4375 }, {  92,4633 }, {  93,3007 }, {  94,4375 }, {  95,4375 },
- {  96,4375 }, {  97,4375 }, {  98,4375 }, {  99,4375 }, { 100,4375 },
- { 101,4375 }, { 102,4375 }, { 103,4375 }, { 104,4375 }, { 105,4375 },
- { 106,4375 }, { 107,4375 }, { 108,4375 }, { 109,4375 }, { 110,4375 },
- { 111,4375 }, { 112,4375 }, { 113,4375 }, { 114,4375 }, { 115,4375 },
- { 116,4375 }, { 117,4375 }, { 118,4375 }, { 119,4375 }, { 120,4375 },
- { 121,4375 }, { 122,4375 }, { 123,4375 }, { 124,4375 }, { 125,4375 },
- { 126,4375 }, { 127,4375 }, { 128,4375 }, { 129,4375 }, { 130,4375 },
- { 131,4375 }, { 132,4375 }, { 133,4375 }, { 134,4375 }, { 135,4375 },
-
- { 136,4375 }, { 137,4375 }, { 138,4375 }, { 139,4375 }, { 140,4375 },
- { 141,4375 }, { 142,4375 }, { 143,4375 }, { 144,4375 }, { 145,4375 },
- { 146,4375 }, { 147,4375 }, { 148,4375 }, { 149,4375 }, { 150,4375 },
- { 151,4375 }, { 152,4375 }, { 153,4375 }, { 154,4375 }, { 155,4375 },
- { 156,4375 }, { 157,4375 }, { 158,4375 }, { 159,4375 }, { 160,4375 },
- { 161,4375 }, { 162,4375 }, { 163,4375 }, { 164,4375 }, { 165,4375 },
- { 166,4375 }, { 167,4375 }, { 168,4375 }, { 169,4375 }, { 170,4375 },
- { 171,4375 }, { 172,4375 }, { 173,4375 }, { 174,4375 }, { 175,4375 },
- { 176,4375 }, { 177,4375 }, { 178,4375 }, { 179,4375 }, { 180,4375 },
- { 181,4375 }, { 182,4375 }, { 183,4375 }, { 184,4375 }, { 185,4375 },
-
- { 186,4375 }, { 187,4375 }, { 188,4375 }, { 189,4375 }, { 190,4375 },
- { 191,4375 }, { 192,4375 }, { 193,4375 }, { 194,4375 }, { 195,4375 },
- { 196,4375 }, { 197,4375 }, { 198,4375 }, { 199,4375 }, { 200,4375 },
- { 201,4375 }, { 202,4375 }, { 203,4375 }, { 204,4375 }, { 205,4375 },
- { 206,4375 }, { 207,4375 }, { 208,4375 }, { 209,4375 }, { 210,4375 },
- { 211,4375 }, { 212,4375 }, { 213,4375 }, { 214,4375 }, { 215,4375 },
- { 216,4375 }, { 217,4375 }, { 218,4375 }, { 219,4375 }, { 220,4375 },
- { 221,4375 }, { 222,4375 }, { 223,4375 }, { 224,4375 }, { 225,4375 },
- { 226,4375 }, { 227,4375 }, { 228,4375 }, { 229,4375 }, { 230,4375 },
- { 231,4375 }, { 232,4375 }, { 233,4375 }, { 234,4375 }, { 235,4375 },
-
- { 236,4375 }, { 237,4375 }, { 238,4375 }, { 239,4375 }, { 240,4375 },
- { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
- { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
- { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14510 }, {   1,2476 }, {   2,2476 },
- {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
- {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
- {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
- {  18,2476 }, {  19,2476 }, {  20,2476 }, {  21,2476 }, {  22,2476 },
- {  23,2476 }, {  24,2476 }, {  25,2476 }, {  26,2476 }, {  27,2476 },
-
- {  28,2476 }, {  29,2476 }, {  30,2476 }, {  31,2476 }, {  32,2451 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2476 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2451 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2476 }, {  46,2451 }, {  47,2451 },
- {  48,2476 }, {  49,2476 }, {  50,2476 }, {  51,2476 }, {  52,2476 },
- {  53,2476 }, {  54,2476 }, {  55,2476 }, {  56,2476 }, {  57,2476 },
- {  58,2476 }, {   0,   0 }, {   0,   0 }, {  61,2451 }, {   0,   0 },
- {  63,2476 }, {   0,   0 }, {  65,2476 }, {  66,2476 }, {  67,2476 },
- {  68,2476 }, {  69,2476 }, {  70,2476 }, {  71,2476 }, {  72,2476 },
- {  73,2476 }, {  74,2476 }, {  75,2476 }, {  76,2476 }, {  77,2476 },
-
- {  78,2476 }, {  79,2476 }, {  80,2476 }, {  81,2476 }, {  82,2476 },
- {  83,2476 }, {  84,2476 }, {  85,2476 }, {  86,2476 }, {  87,2476 },
- {  88,2476 }, {  89,2476 }, {  90,2476 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2476 }, {   0,   0 }, {  97,2476 },
- {  98,2476 }, {  99,2476 }, { 100,2476 }, { 101,2476 }, { 102,2476 },
- { 103,2476 }, { 104,2476 }, { 105,2476 }, { 106,2476 }, { 107,2476 },
- { 108,2476 }, { 109,2476 }, { 110,2476 }, { 111,2476 }, { 112,2476 },
- { 113,2476 }, { 114,2476 }, { 115,4633 }, { 116,2476 }, { 117,2476 },
- { 118,2476 }, { 119,2476 }, { 120,2476 }, { 121,2476 }, { 122,2476 },
- {   0,   0 }, { 124,2451 }, { 125,2451 }, { 126,2451 }, { 127,2476 },
-
- { 128,2476 }, { 129,2476 }, { 130,2476 }, { 131,2476 }, { 132,2476 },
- { 133,2476 }, { 134,2476 }, { 135,2476 }, { 136,2476 }, { 137,2476 },
- { 138,2476 }, { 139,2476 }, { 140,2476 }, { 141,2476 }, { 142,2476 },
- { 143,2476 }, { 144,2476 }, { 145,2476 }, { 146,2476 }, { 147,2476 },
- { 148,2476 }, { 149,2476 }, { 150,2476 }, { 151,2476 }, { 152,2476 },
- { 153,2476 }, { 154,2476 }, { 155,2476 }, { 156,2476 }, { 157,2476 },
- { 158,2476 }, { 159,2476 }, { 160,2476 }, { 161,2476 }, { 162,2476 },
- { 163,2476 }, { 164,2476 }, { 165,2476 }, { 166,2476 }, { 167,2476 },
- { 168,2476 }, { 169,2476 }, { 170,2476 }, { 171,2476 }, { 172,2476 },
- { 173,2476 }, { 174,2476 }, { 175,2476 }, { 176,2476 }, { 177,2476 },
-
- { 178,2476 }, { 179,2476 }, { 180,2476 }, { 181,2476 }, { 182,2476 },
- { 183,2476 }, { 184,2476 }, { 185,2476 }, { 186,2476 }, { 187,2476 },
- { 188,2476 }, { 189,2476 }, { 190,2476 }, { 191,2476 }, { 192,2476 },
- { 193,2476 }, { 194,2476 }, { 195,2476 }, { 196,2476 }, { 197,2476 },
- { 198,2476 }, { 199,2476 }, { 200,2476 }, { 201,2476 }, { 202,2476 },
- { 203,2476 }, { 204,2476 }, { 205,2476 }, { 206,2476 }, { 207,2476 },
- { 208,2476 }, { 209,2476 }, { 210,2476 }, { 211,2476 }, { 212,2476 },
- { 213,2476 }, { 214,2476 }, { 215,2476 }, { 216,2476 }, { 217,2476 },
- { 218,2476 }, { 219,2476 }, { 220,2476 }, { 221,2476 }, { 222,2476 },
- { 223,2476 }, { 224,2476 }, { 225,2476 }, { 226,2476 }, { 227,2476 },
-
- { 228,2476 }, { 229,2476 }, { 230,2476 }, { 231,2476 }, { 232,2476 },
- { 233,2476 }, { 234,2476 }, { 235,2476 }, { 236,2476 }, { 237,2476 },
- { 238,2476 }, { 239,2476 }, { 240,2476 }, { 241,2476 }, { 242,2476 },
- { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
- { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
- { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14252 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
- {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
- {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
- {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
-
- {  20,2218 }, {  21,2218 }, {  22,2218 }, {  23,2218 }, {  24,2218 },
- {  25,2218 }, {  26,2218 }, {  27,2218 }, {  28,2218 }, {  29,2218 },
- {  30,2218 }, {  31,2218 }, {  32,2193 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2193 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2218 }, {  46,2193 }, {  47,2193 }, {  48,2218 }, {  49,2218 },
- {  50,2218 }, {  51,2218 }, {  52,2218 }, {  53,2218 }, {  54,2218 },
- {  55,2218 }, {  56,2218 }, {  57,2218 }, {  58,2218 }, {   0,   0 },
- {   0,   0 }, {  61,2193 }, {   0,   0 }, {  63,2218 }, {   0,   0 },
- {  65,2218 }, {  66,2218 }, {  67,2218 }, {  68,2218 }, {  69,2218 },
-
- {  70,2218 }, {  71,2218 }, {  72,2218 }, {  73,2218 }, {  74,2218 },
- {  75,2218 }, {  76,2218 }, {  77,2218 }, {  78,2218 }, {  79,2218 },
- {  80,2218 }, {  81,2218 }, {  82,2218 }, {  83,2218 }, {  84,2218 },
- {  85,2218 }, {  86,2218 }, {  87,2218 }, {  88,2218 }, {  89,2218 },
- {  90,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2218 }, {   0,   0 }, {  97,4633 }, {  98,2218 }, {  99,2218 },
- { 100,2218 }, { 101,2218 }, { 102,2218 }, { 103,2218 }, { 104,2218 },
- { 105,2218 }, { 106,2218 }, { 107,2218 }, { 108,2218 }, { 109,2218 },
- { 110,2218 }, { 111,2218 }, { 112,2218 }, { 113,2218 }, { 114,2218 },
- { 115,2218 }, { 116,2218 }, { 117,2218 }, { 118,2218 }, { 119,2218 },
-
- { 120,2218 }, { 121,2218 }, { 122,2218 }, {   0,   0 }, { 124,2193 },
- { 125,2193 }, { 126,2193 }, { 127,2218 }, { 128,2218 }, { 129,2218 },
- { 130,2218 }, { 131,2218 }, { 132,2218 }, { 133,2218 }, { 134,2218 },
- { 135,2218 }, { 136,2218 }, { 137,2218 }, { 138,2218 }, { 139,2218 },
- { 140,2218 }, { 141,2218 }, { 142,2218 }, { 143,2218 }, { 144,2218 },
- { 145,2218 }, { 146,2218 }, { 147,2218 }, { 148,2218 }, { 149,2218 },
- { 150,2218 }, { 151,2218 }, { 152,2218 }, { 153,2218 }, { 154,2218 },
- { 155,2218 }, { 156,2218 }, { 157,2218 }, { 158,2218 }, { 159,2218 },
- { 160,2218 }, { 161,2218 }, { 162,2218 }, { 163,2218 }, { 164,2218 },
- { 165,2218 }, { 166,2218 }, { 167,2218 }, { 168,2218 }, { 169,2218 },
-
- { 170,2218 }, { 171,2218 }, { 172,2218 }, { 173,2218 }, { 174,2218 },
- { 175,2218 }, { 176,2218 }, { 177,2218 }, { 178,2218 }, { 179,2218 },
- { 180,2218 }, { 181,2218 }, { 182,2218 }, { 183,2218 }, { 184,2218 },
- { 185,2218 }, { 186,2218 }, { 187,2218 }, { 188,2218 }, { 189,2218 },
- { 190,2218 }, { 191,2218 }, { 192,2218 }, { 193,2218 }, { 194,2218 },
- { 195,2218 }, { 196,2218 }, { 197,2218 }, { 198,2218 }, { 199,2218 },
- { 200,2218 }, { 201,2218 }, { 202,2218 }, { 203,2218 }, { 204,2218 },
- { 205,2218 }, { 206,2218 }, { 207,2218 }, { 208,2218 }, { 209,2218 },
- { 210,2218 }, { 211,2218 }, { 212,2218 }, { 213,2218 }, { 214,2218 },
- { 215,2218 }, { 216,2218 }, { 217,2218 }, { 218,2218 }, { 219,2218 },
-
- { 220,2218 }, { 221,2218 }, { 222,2218 }, { 223,2218 }, { 224,2218 },
- { 225,2218 }, { 226,2218 }, { 227,2218 }, { 228,2218 }, { 229,2218 },
- { 230,2218 }, { 231,2218 }, { 232,2218 }, { 233,2218 }, { 234,2218 },
- { 235,2218 }, { 236,2218 }, { 237,2218 }, { 238,2218 }, { 239,2218 },
- { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
- { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
- { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13994 }, {   1,1960 },
- {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
- {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
-
- {  12,1960 }, {  13,1935 }, {  14,1960 }, {  15,1960 }, {  16,1960 },
- {  17,1960 }, {  18,1960 }, {  19,1960 }, {  20,1960 }, {  21,1960 },
- {  22,1960 }, {  23,1960 }, {  24,1960 }, {  25,1960 }, {  26,1960 },
- {  27,1960 }, {  28,1960 }, {  29,1960 }, {  30,1960 }, {  31,1960 },
- {  32,1935 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1960 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1935 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1960 }, {  46,1935 },
- {  47,1935 }, {  48,1960 }, {  49,1960 }, {  50,1960 }, {  51,1960 },
- {  52,1960 }, {  53,1960 }, {  54,1960 }, {  55,1960 }, {  56,1960 },
- {  57,1960 }, {  58,1960 }, {   0,   0 }, {   0,   0 }, {  61,1935 },
-
- {   0,   0 }, {  63,1960 }, {   0,   0 }, {  65,1960 }, {  66,1960 },
- {  67,1960 }, {  68,1960 }, {  69,1960 }, {  70,1960 }, {  71,1960 },
- {  72,1960 }, {  73,1960 }, {  74,1960 }, {  75,1960 }, {  76,1960 },
- {  77,1960 }, {  78,1960 }, {  79,1960 }, {  80,1960 }, {  81,1960 },
- {  82,1960 }, {  83,1960 }, {  84,1960 }, {  85,1960 }, {  86,1960 },
- {  87,1960 }, {  88,1960 }, {  89,1960 }, {  90,1960 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1960 }, {   0,   0 },
- {  97,1960 }, {  98,1960 }, {  99,1960 }, { 100,1960 }, { 101,1960 },
- { 102,1960 }, { 103,1960 }, { 104,1960 }, { 105,1960 }, { 106,1960 },
- { 107,1960 }, { 108,1960 }, { 109,1960 }, { 110,1960 }, { 111,1960 },
-
- { 112,1960 }, { 113,1960 }, { 114,1960 }, { 115,1960 }, { 116,1960 },
- { 117,4633 }, { 118,1960 }, { 119,1960 }, { 120,1960 }, { 121,1960 },
- { 122,1960 }, {   0,   0 }, { 124,1935 }, { 125,1935 }, { 126,1935 },
- { 127,1960 }, { 128,1960 }, { 129,1960 }, { 130,1960 }, { 131,1960 },
- { 132,1960 }, { 133,1960 }, { 134,1960 }, { 135,1960 }, { 136,1960 },
- { 137,1960 }, { 138,1960 }, { 139,1960 }, { 140,1960 }, { 141,1960 },
- { 142,1960 }, { 143,1960 }, { 144,1960 }, { 145,1960 }, { 146,1960 },
- { 147,1960 }, { 148,1960 }, { 149,1960 }, { 150,1960 }, { 151,1960 },
- { 152,1960 }, { 153,1960 }, { 154,1960 }, { 155,1960 }, { 156,1960 },
- { 157,1960 }, { 158,1960 }, { 159,1960 }, { 160,1960 }, { 161,1960 },
-
- { 162,1960 }, { 163,1960 }, { 164,1960 }, { 165,1960 }, { 166,1960 },
- { 167,1960 }, { 168,1960 }, { 169,1960 }, { 170,1960 }, { 171,1960 },
- { 172,1960 }, { 173,1960 }, { 174,1960 }, { 175,1960 }, { 176,1960 },
- { 177,1960 }, { 178,1960 }, { 179,1960 }, { 180,1960 }, { 181,1960 },
- { 182,1960 }, { 183,1960 }, { 184,1960 }, { 185,1960 }, { 186,1960 },
- { 187,1960 }, { 188,1960 }, { 189,1960 }, { 190,1960 }, { 191,1960 },
- { 192,1960 }, { 193,1960 }, { 194,1960 }, { 195,1960 }, { 196,1960 },
- { 197,1960 }, { 198,1960 }, { 199,1960 }, { 200,1960 }, { 201,1960 },
- { 202,1960 }, { 203,1960 }, { 204,1960 }, { 205,1960 }, { 206,1960 },
- { 207,1960 }, { 208,1960 }, { 209,1960 }, { 210,1960 }, { 211,1960 },
-
- { 212,1960 }, { 213,1960 }, { 214,1960 }, { 215,1960 }, { 216,1960 },
- { 217,1960 }, { 218,1960 }, { 219,1960 }, { 220,1960 }, { 221,1960 },
- { 222,1960 }, { 223,1960 }, { 224,1960 }, { 225,1960 }, { 226,1960 },
- { 227,1960 }, { 228,1960 }, { 229,1960 }, { 230,1960 }, { 231,1960 },
- { 232,1960 }, { 233,1960 }, { 234,1960 }, { 235,1960 }, { 236,1960 },
- { 237,1960 }, { 238,1960 }, { 239,1960 }, { 240,1960 }, { 241,1960 },
- { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
- { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
- { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13736 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
-
- {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
- {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
- {  14,1702 }, {  15,1702 }, {  16,1702 }, {  17,1702 }, {  18,1702 },
- {  19,1702 }, {  20,1702 }, {  21,1702 }, {  22,1702 }, {  23,1702 },
- {  24,1702 }, {  25,1702 }, {  26,1702 }, {  27,1702 }, {  28,1702 },
- {  29,1702 }, {  30,1702 }, {  31,1702 }, {  32,1677 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1677 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1702 }, {  46,1677 }, {  47,1677 }, {  48,1702 },
- {  49,1702 }, {  50,1702 }, {  51,1702 }, {  52,1702 }, {  53,1702 },
-
- {  54,1702 }, {  55,1702 }, {  56,1702 }, {  57,1702 }, {  58,1702 },
- {   0,   0 }, {   0,   0 }, {  61,1677 }, {   0,   0 }, {  63,1702 },
- {   0,   0 }, {  65,1702 }, {  66,1702 }, {  67,1702 }, {  68,1702 },
- {  69,1702 }, {  70,1702 }, {  71,1702 }, {  72,1702 }, {  73,1702 },
- {  74,1702 }, {  75,1702 }, {  76,1702 }, {  77,1702 }, {  78,1702 },
- {  79,1702 }, {  80,1702 }, {  81,1702 }, {  82,1702 }, {  83,1702 },
- {  84,1702 }, {  85,1702 }, {  86,1702 }, {  87,1702 }, {  88,1702 },
- {  89,1702 }, {  90,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1702 }, {   0,   0 }, {  97,1702 }, {  98,1702 },
- {  99,1702 }, { 100,1702 }, { 101,1702 }, { 102,1702 }, { 103,1702 },
-
- { 104,1702 }, { 105,1702 }, { 106,1702 }, { 107,1702 }, { 108,1702 },
- { 109,1702 }, { 110,1702 }, { 111,1702 }, { 112,1702 }, { 113,1702 },
- { 114,4633 }, { 115,1702 }, { 116,1702 }, { 117,1702 }, { 118,1702 },
- { 119,1702 }, { 120,1702 }, { 121,1702 }, { 122,1702 }, {   0,   0 },
- { 124,1677 }, { 125,1677 }, { 126,1677 }, { 127,1702 }, { 128,1702 },
- { 129,1702 }, { 130,1702 }, { 131,1702 }, { 132,1702 }, { 133,1702 },
- { 134,1702 }, { 135,1702 }, { 136,1702 }, { 137,1702 }, { 138,1702 },
- { 139,1702 }, { 140,1702 }, { 141,1702 }, { 142,1702 }, { 143,1702 },
- { 144,1702 }, { 145,1702 }, { 146,1702 }, { 147,1702 }, { 148,1702 },
- { 149,1702 }, { 150,1702 }, { 151,1702 }, { 152,1702 }, { 153,1702 },
-
- { 154,1702 }, { 155,1702 }, { 156,1702 }, { 157,1702 }, { 158,1702 },
- { 159,1702 }, { 160,1702 }, { 161,1702 }, { 162,1702 }, { 163,1702 },
- { 164,1702 }, { 165,1702 }, { 166,1702 }, { 167,1702 }, { 168,1702 },
- { 169,1702 }, { 170,1702 }, { 171,1702 }, { 172,1702 }, { 173,1702 },
- { 174,1702 }, { 175,1702 }, { 176,1702 }, { 177,1702 }, { 178,1702 },
- { 179,1702 }, { 180,1702 }, { 181,1702 }, { 182,1702 }, { 183,1702 },
- { 184,1702 }, { 185,1702 }, { 186,1702 }, { 187,1702 }, { 188,1702 },
- { 189,1702 }, { 190,1702 }, { 191,1702 }, { 192,1702 }, { 193,1702 },
- { 194,1702 }, { 195,1702 }, { 196,1702 }, { 197,1702 }, { 198,1702 },
- { 199,1702 }, { 200,1702 }, { 201,1702 }, { 202,1702 }, { 203,1702 },
-
- { 204,1702 }, { 205,1702 }, { 206,1702 }, { 207,1702 }, { 208,1702 },
- { 209,1702 }, { 210,1702 }, { 211,1702 }, { 212,1702 }, { 213,1702 },
- { 214,1702 }, { 215,1702 }, { 216,1702 }, { 217,1702 }, { 218,1702 },
- { 219,1702 }, { 220,1702 }, { 221,1702 }, { 222,1702 }, { 223,1702 },
- { 224,1702 }, { 225,1702 }, { 226,1702 }, { 227,1702 }, { 228,1702 },
- { 229,1702 }, { 230,1702 }, { 231,1702 }, { 232,1702 }, { 233,1702 },
- { 234,1702 }, { 235,1702 }, { 236,1702 }, { 237,1702 }, { 238,1702 },
- { 239,1702 }, { 240,1702 }, { 241,1702 }, { 242,1702 }, { 243,1702 },
- { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
- { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
-
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13478 },
- {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
- {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
- {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
- {  16,1444 }, {  17,1444 }, {  18,1444 }, {  19,1444 }, {  20,1444 },
- {  21,1444 }, {  22,1444 }, {  23,1444 }, {  24,1444 }, {  25,1444 },
- {  26,1444 }, {  27,1444 }, {  28,1444 }, {  29,1444 }, {  30,1444 },
- {  31,1444 }, {  32,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1444 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1444 },
-
- {  46,1419 }, {  47,1419 }, {  48,1444 }, {  49,1444 }, {  50,1444 },
- {  51,1444 }, {  52,1444 }, {  53,1444 }, {  54,1444 }, {  55,1444 },
- {  56,1444 }, {  57,1444 }, {  58,1444 }, {   0,   0 }, {   0,   0 },
- {  61,1419 }, {   0,   0 }, {  63,1444 }, {   0,   0 }, {  65,1444 },
- {  66,1444 }, {  67,1444 }, {  68,1444 }, {  69,1444 }, {  70,1444 },
- {  71,1444 }, {  72,1444 }, {  73,1444 }, {  74,1444 }, {  75,1444 },
- {  76,1444 }, {  77,1444 }, {  78,1444 }, {  79,1444 }, {  80,1444 },
- {  81,1444 }, {  82,1444 }, {  83,1444 }, {  84,1444 }, {  85,1444 },
- {  86,1444 }, {  87,1444 }, {  88,1444 }, {  89,1444 }, {  90,1444 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1444 },
-
- {   0,   0 }, {  97,1444 }, {  98,1444 }, {  99,1444 }, { 100,1444 },
- { 101,1444 }, { 102,1444 }, { 103,1444 }, { 104,1444 }, { 105,1444 },
- { 106,1444 }, { 107,1444 }, { 108,1444 }, { 109,1444 }, { 110,4633 },
- { 111,1444 }, { 112,1444 }, { 113,1444 }, { 114,1444 }, { 115,1444 },
- { 116,1444 }, { 117,1444 }, { 118,1444 }, { 119,1444 }, { 120,1444 },
- { 121,1444 }, { 122,1444 }, {   0,   0 }, { 124,1419 }, { 125,1419 },
- { 126,1419 }, { 127,1444 }, { 128,1444 }, { 129,1444 }, { 130,1444 },
- { 131,1444 }, { 132,1444 }, { 133,1444 }, { 134,1444 }, { 135,1444 },
- { 136,1444 }, { 137,1444 }, { 138,1444 }, { 139,1444 }, { 140,1444 },
- { 141,1444 }, { 142,1444 }, { 143,1444 }, { 144,1444 }, { 145,1444 },
-
- { 146,1444 }, { 147,1444 }, { 148,1444 }, { 149,1444 }, { 150,1444 },
- { 151,1444 }, { 152,1444 }, { 153,1444 }, { 154,1444 }, { 155,1444 },
- { 156,1444 }, { 157,1444 }, { 158,1444 }, { 159,1444 }, { 160,1444 },
- { 161,1444 }, { 162,1444 }, { 163,1444 }, { 164,1444 }, { 165,1444 },
- { 166,1444 }, { 167,1444 }, { 168,1444 }, { 169,1444 }, { 170,1444 },
- { 171,1444 }, { 172,1444 }, { 173,1444 }, { 174,1444 }, { 175,1444 },
- { 176,1444 }, { 177,1444 }, { 178,1444 }, { 179,1444 }, { 180,1444 },
- { 181,1444 }, { 182,1444 }, { 183,1444 }, { 184,1444 }, { 185,1444 },
- { 186,1444 }, { 187,1444 }, { 188,1444 }, { 189,1444 }, { 190,1444 },
- { 191,1444 }, { 192,1444 }, { 193,1444 }, { 194,1444 }, { 195,1444 },
-
- { 196,1444 }, { 197,1444 }, { 198,1444 }, { 199,1444 }, { 200,1444 },
- { 201,1444 }, { 202,1444 }, { 203,1444 }, { 204,1444 }, { 205,1444 },
- { 206,1444 }, { 207,1444 }, { 208,1444 }, { 209,1444 }, { 210,1444 },
- { 211,1444 }, { 212,1444 }, { 213,1444 }, { 214,1444 }, { 215,1444 },
- { 216,1444 }, { 217,1444 }, { 218,1444 }, { 219,1444 }, { 220,1444 },
- { 221,1444 }, { 222,1444 }, { 223,1444 }, { 224,1444 }, { 225,1444 },
- { 226,1444 }, { 227,1444 }, { 228,1444 }, { 229,1444 }, { 230,1444 },
- { 231,1444 }, { 232,1444 }, { 233,1444 }, { 234,1444 }, { 235,1444 },
- { 236,1444 }, { 237,1444 }, { 238,1444 }, { 239,1444 }, { 240,1444 },
- { 241,1444 }, { 242,1444 }, { 243,1444 }, { 244,1444 }, { 245,1444 },
-
- { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
- { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13220 }, {   1,4769 }, {   2,4769 },
+ {   0,   0 }, {   0,21120 }, {   1,3280 }, {   2,3280 }, {   3,3280 },
+ {   4,3280 }, {   5,3280 }, {   6,3280 }, {   7,3280 }, {   8,3280 },
+ {   9,3280 }, {  10,3280 }, {  11,3280 }, {  12,3280 }, {  13,3280 },
+ {  14,3280 }, {  15,3280 }, {  16,3280 }, {  17,3280 }, {  18,3280 },
+ {  19,3280 }, {  20,3280 }, {  21,3280 }, {  22,3280 }, {  23,3280 },
+ {  24,3280 }, {  25,3280 }, {  26,3280 }, {  27,3280 }, {  28,3280 },
+ {  29,3280 }, {  30,3280 }, {  31,3280 }, {  32,3280 }, {  33,3280 },
+ {  34,3280 }, {  35,3280 }, {  36,3280 }, {  37,3280 }, {  38,3280 },
+ {  39,3280 }, {  40,3280 }, {  41,3280 }, {  42,3280 }, {  43,3280 },
+ {  44,3280 }, {  45,3280 }, {  46,3280 }, {  47,3280 }, {  48,3280 },
+
+ {  49,3280 }, {  50,3280 }, {  51,3280 }, {  52,3280 }, {  53,3280 },
+ {  54,3280 }, {  55,3280 }, {  56,3280 }, {  57,3280 }, {  58,3280 },
+ {  59,3280 }, {  60,3280 }, {  61,3280 }, {  62,3280 }, {  63,3280 },
+ {  64,3280 }, {  65,3280 }, {  66,3280 }, {  67,3280 }, {  68,3280 },
+ {  69,3280 }, {  70,3280 }, {  71,3280 }, {  72,3280 }, {  73,3280 },
+ {  74,3280 }, {  75,3280 }, {  76,3280 }, {  77,3280 }, {  78,3280 },
+ {  79,3280 }, {  80,3280 }, {  81,3280 }, {  82,3280 }, {  83,3280 },
+ {  84,3280 }, {  85,3280 }, {  86,3280 }, {  87,3280 }, {  88,3280 },
+ {  89,3280 }, {  90,3280 }, {  91,3280 }, {  92,3280 }, {  93,3280 },
+ {  94,3280 }, {  95,3280 }, {  96,3280 }, {  97,3280 }, {  98,3280 },
+
+ {  99,3280 }, { 100,3280 }, { 101,3280 }, { 102,3280 }, { 103,3280 },
+ { 104,3280 }, { 105,3280 }, { 106,3280 }, { 107,3280 }, { 108,3280 },
+ { 109,3280 }, { 110,3280 }, { 111,3280 }, { 112,3280 }, { 113,3280 },
+ { 114,3280 }, { 115,3280 }, { 116,3280 }, { 117,3280 }, { 118,3280 },
+ { 119,3280 }, { 120,3280 }, { 121,3280 }, { 122,3280 }, { 123,5111 },
+ { 124,3280 }, { 125,3280 }, { 126,3280 }, { 127,3280 }, { 128,3280 },
+ { 129,3280 }, { 130,3280 }, { 131,3280 }, { 132,3280 }, { 133,3280 },
+ { 134,3280 }, { 135,3280 }, { 136,3280 }, { 137,3280 }, { 138,3280 },
+ { 139,3280 }, { 140,3280 }, { 141,3280 }, { 142,3280 }, { 143,3280 },
+ { 144,3280 }, { 145,3280 }, { 146,3280 }, { 147,3280 }, { 148,3280 },
+
+ { 149,3280 }, { 150,3280 }, { 151,3280 }, { 152,3280 }, { 153,3280 },
+ { 154,3280 }, { 155,3280 }, { 156,3280 }, { 157,3280 }, { 158,3280 },
+ { 159,3280 }, { 160,3280 }, { 161,3280 }, { 162,3280 }, { 163,3280 },
+ { 164,3280 }, { 165,3280 }, { 166,3280 }, { 167,3280 }, { 168,3280 },
+ { 169,3280 }, { 170,3280 }, { 171,3280 }, { 172,3280 }, { 173,3280 },
+ { 174,3280 }, { 175,3280 }, { 176,3280 }, { 177,3280 }, { 178,3280 },
+ { 179,3280 }, { 180,3280 }, { 181,3280 }, { 182,3280 }, { 183,3280 },
+ { 184,3280 }, { 185,3280 }, { 186,3280 }, { 187,3280 }, { 188,3280 },
+ { 189,3280 }, { 190,3280 }, { 191,3280 }, { 192,3280 }, { 193,3280 },
+ { 194,3280 }, { 195,3280 }, { 196,3280 }, { 197,3280 }, { 198,3280 },
+
+ { 199,3280 }, { 200,3280 }, { 201,3280 }, { 202,3280 }, { 203,3280 },
+ { 204,3280 }, { 205,3280 }, { 206,3280 }, { 207,3280 }, { 208,3280 },
+ { 209,3280 }, { 210,3280 }, { 211,3280 }, { 212,3280 }, { 213,3280 },
+ { 214,3280 }, { 215,3280 }, { 216,3280 }, { 217,3280 }, { 218,3280 },
+ { 219,3280 }, { 220,3280 }, { 221,3280 }, { 222,3280 }, { 223,3280 },
+ { 224,3280 }, { 225,3280 }, { 226,3280 }, { 227,3280 }, { 228,3280 },
+ { 229,3280 }, { 230,3280 }, { 231,3280 }, { 232,3280 }, { 233,3280 },
+ { 234,3280 }, { 235,3280 }, { 236,3280 }, { 237,3280 }, { 238,3280 },
+ { 239,3280 }, { 240,3280 }, { 241,3280 }, { 242,3280 }, { 243,3280 },
+ { 244,3280 }, { 245,3280 }, { 246,3280 }, { 247,3280 }, { 248,3280 },
+
+ { 249,3280 }, { 250,3280 }, { 251,3280 }, { 252,3280 }, { 253,3280 },
+ { 254,3280 }, { 255,3280 }, { 256,3280 }, {   0,   0 }, {   0,20862 },
+ {   1,3022 }, {   2,3022 }, {   3,3022 }, {   4,3022 }, {   5,3022 },
+ {   6,3022 }, {   7,3022 }, {   8,3022 }, {   9,3022 }, {  10,3022 },
+ {  11,3022 }, {  12,3022 }, {  13,3022 }, {  14,3022 }, {  15,3022 },
+ {  16,3022 }, {  17,3022 }, {  18,3022 }, {  19,3022 }, {  20,3022 },
+ {  21,3022 }, {  22,3022 }, {  23,3022 }, {  24,3022 }, {  25,3022 },
+ {  26,3022 }, {  27,3022 }, {  28,3022 }, {  29,3022 }, {  30,3022 },
+ {  31,3022 }, {  32,3022 }, {  33,3022 }, {  34,3022 }, {  35,3022 },
+ {  36,3022 }, {  37,3022 }, {  38,3022 }, {  39,3022 }, {  40,3022 },
+
+ {  41,3022 }, {  42,3022 }, {  43,3022 }, {  44,3022 }, {  45,3022 },
+ {  46,3022 }, {  47,3022 }, {  48,3022 }, {  49,3022 }, {  50,3022 },
+ {  51,3022 }, {  52,3022 }, {  53,3022 }, {  54,3022 }, {  55,3022 },
+ {  56,3022 }, {  57,3022 }, {  58,3022 }, {  59,3022 }, {  60,3022 },
+ {  61,3022 }, {  62,3022 }, {  63,3022 }, {  64,3022 }, {  65,3022 },
+ {  66,3022 }, {  67,3022 }, {  68,3022 }, {  69,3022 }, {  70,3022 },
+ {  71,3022 }, {  72,3022 }, {  73,3022 }, {  74,3022 }, {  75,3022 },
+ {  76,3022 }, {  77,3022 }, {  78,3022 }, {  79,3022 }, {  80,3022 },
+ {  81,3022 }, {  82,3022 }, {  83,3022 }, {  84,3022 }, {  85,3022 },
+ {  86,3022 }, {  87,3022 }, {  88,3022 }, {  89,3022 }, {  90,3022 },
+
+ {  91,3022 }, {  92,3022 }, {  93,3022 }, {  94,3022 }, {  95,3022 },
+ {  96,3022 }, {  97,3022 }, {  98,3022 }, {  99,3022 }, { 100,3022 },
+ { 101,3022 }, { 102,3022 }, { 103,3022 }, { 104,3022 }, { 105,3022 },
+ { 106,3022 }, { 107,3022 }, { 108,3022 }, { 109,3022 }, { 110,3022 },
+ { 111,3022 }, { 112,3022 }, { 113,3022 }, { 114,3022 }, { 115,3022 },
+ { 116,3022 }, { 117,3022 }, { 118,3022 }, { 119,3022 }, { 120,3022 },
+ { 121,3022 }, { 122,3022 }, { 123,4853 }, { 124,3022 }, { 125,3022 },
+ { 126,3022 }, { 127,3022 }, { 128,3022 }, { 129,3022 }, { 130,3022 },
+ { 131,3022 }, { 132,3022 }, { 133,3022 }, { 134,3022 }, { 135,3022 },
+ { 136,3022 }, { 137,3022 }, { 138,3022 }, { 139,3022 }, { 140,3022 },
+
+ { 141,3022 }, { 142,3022 }, { 143,3022 }, { 144,3022 }, { 145,3022 },
+ { 146,3022 }, { 147,3022 }, { 148,3022 }, { 149,3022 }, { 150,3022 },
+ { 151,3022 }, { 152,3022 }, { 153,3022 }, { 154,3022 }, { 155,3022 },
+ { 156,3022 }, { 157,3022 }, { 158,3022 }, { 159,3022 }, { 160,3022 },
+ { 161,3022 }, { 162,3022 }, { 163,3022 }, { 164,3022 }, { 165,3022 },
+ { 166,3022 }, { 167,3022 }, { 168,3022 }, { 169,3022 }, { 170,3022 },
+ { 171,3022 }, { 172,3022 }, { 173,3022 }, { 174,3022 }, { 175,3022 },
+ { 176,3022 }, { 177,3022 }, { 178,3022 }, { 179,3022 }, { 180,3022 },
+ { 181,3022 }, { 182,3022 }, { 183,3022 }, { 184,3022 }, { 185,3022 },
+ { 186,3022 }, { 187,3022 }, { 188,3022 }, { 189,3022 }, { 190,3022 },
+
+ { 191,3022 }, { 192,3022 }, { 193,3022 }, { 194,3022 }, { 195,3022 },
+ { 196,3022 }, { 197,3022 }, { 198,3022 }, { 199,3022 }, { 200,3022 },
+ { 201,3022 }, { 202,3022 }, { 203,3022 }, { 204,3022 }, { 205,3022 },
+ { 206,3022 }, { 207,3022 }, { 208,3022 }, { 209,3022 }, { 210,3022 },
+ { 211,3022 }, { 212,3022 }, { 213,3022 }, { 214,3022 }, { 215,3022 },
+ { 216,3022 }, { 217,3022 }, { 218,3022 }, { 219,3022 }, { 220,3022 },
+ { 221,3022 }, { 222,3022 }, { 223,3022 }, { 224,3022 }, { 225,3022 },
+ { 226,3022 }, { 227,3022 }, { 228,3022 }, { 229,3022 }, { 230,3022 },
+ { 231,3022 }, { 232,3022 }, { 233,3022 }, { 234,3022 }, { 235,3022 },
+ { 236,3022 }, { 237,3022 }, { 238,3022 }, { 239,3022 }, { 240,3022 },
+
+ { 241,3022 }, { 242,3022 }, { 243,3022 }, { 244,3022 }, { 245,3022 },
+ { 246,3022 }, { 247,3022 }, { 248,3022 }, { 249,3022 }, { 250,3022 },
+ { 251,3022 }, { 252,3022 }, { 253,3022 }, { 254,3022 }, { 255,3022 },
+ { 256,3022 }, {   0,   0 }, {   0,20604 }, {   1,4720 }, {   2,4720 },
+ {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
+ {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
+ {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
+ {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 }, {  22,4720 },
+ {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 }, {  27,4720 },
+ {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 }, {  32,4720 },
+
+ {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 }, {  37,4720 },
+ {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 }, {  42,4720 },
+ {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 }, {  47,4720 },
+ {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 }, {  52,4720 },
+ {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 }, {  57,4720 },
+ {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 }, {  62,4720 },
+ {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 }, {  67,4720 },
+ {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 }, {  72,4720 },
+ {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 }, {  77,4720 },
+ {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 }, {  82,4720 },
+
+ {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 }, {  87,4720 },
+ {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 }, {  92,4720 },
+ {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 }, {  97,4720 },
+ {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 }, { 102,4720 },
+ { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 }, { 107,4720 },
+ { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 }, { 112,4720 },
+ { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 }, { 117,4720 },
+ { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 }, { 122,4720 },
+ { 123,4720 }, { 124,4720 }, { 125,4978 }, { 126,4720 }, { 127,4720 },
+ { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 }, { 132,4720 },
+
+ { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 }, { 137,4720 },
+ { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 }, { 142,4720 },
+ { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 }, { 147,4720 },
+ { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 }, { 152,4720 },
+ { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 }, { 157,4720 },
+ { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 }, { 162,4720 },
+ { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 }, { 167,4720 },
+ { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 }, { 172,4720 },
+ { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 }, { 177,4720 },
+ { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 }, { 182,4720 },
+
+ { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 }, { 187,4720 },
+ { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 }, { 192,4720 },
+ { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 }, { 197,4720 },
+ { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 }, { 202,4720 },
+ { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 }, { 207,4720 },
+ { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 }, { 212,4720 },
+ { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 }, { 217,4720 },
+ { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 }, { 222,4720 },
+ { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 }, { 227,4720 },
+ { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 }, { 232,4720 },
+
+ { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 }, { 237,4720 },
+ { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 }, { 242,4720 },
+ { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 }, { 247,4720 },
+ { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 }, { 252,4720 },
+ { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4720 }, {   0,   0 },
+ {   0,20346 }, {   1,4462 }, {   2,4462 }, {   3,4462 }, {   4,4462 },
+ {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 }, {   9,4462 },
+ {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 }, {  14,4462 },
+ {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 }, {  19,4462 },
+ {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 }, {  24,4462 },
+
+ {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 }, {  29,4462 },
+ {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 }, {  34,4462 },
+ {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 }, {  39,4462 },
+ {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 }, {  44,4462 },
+ {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 }, {  49,4462 },
+ {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 }, {  54,4462 },
+ {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 }, {  59,4462 },
+ {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 }, {  64,4462 },
+ {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 }, {  69,4462 },
+ {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 }, {  74,4462 },
+
+ {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 }, {  79,4462 },
+ {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 }, {  84,4462 },
+ {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 }, {  89,4462 },
+ {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 }, {  94,4462 },
+ {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 }, {  99,4462 },
+ { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 }, { 104,4462 },
+ { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 }, { 109,4462 },
+ { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 }, { 114,4462 },
+ { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 }, { 119,4462 },
+ { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4462 }, { 124,4462 },
+
+ { 125,4720 }, { 126,4462 }, { 127,4462 }, { 128,4462 }, { 129,4462 },
+ { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 }, { 134,4462 },
+ { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 }, { 139,4462 },
+ { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 }, { 144,4462 },
+ { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 }, { 149,4462 },
+ { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 }, { 154,4462 },
+ { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 }, { 159,4462 },
+ { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 }, { 164,4462 },
+ { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 }, { 169,4462 },
+ { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 }, { 174,4462 },
+
+ { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 }, { 179,4462 },
+ { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 }, { 184,4462 },
+ { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 }, { 189,4462 },
+ { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 }, { 194,4462 },
+ { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 }, { 199,4462 },
+ { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 }, { 204,4462 },
+ { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 }, { 209,4462 },
+ { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 }, { 214,4462 },
+ { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 }, { 219,4462 },
+ { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 }, { 224,4462 },
+
+ { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 }, { 229,4462 },
+ { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 }, { 234,4462 },
+ { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 }, { 239,4462 },
+ { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 }, { 244,4462 },
+ { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 }, { 249,4462 },
+ { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 }, { 254,4462 },
+ { 255,4462 }, { 256,4462 }, {   0,   0 }, {   0,20088 }, {   1,4720 },
+ {   2,4720 }, {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 },
+ {   7,4720 }, {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 },
+ {  12,4720 }, {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 },
+
+ {  17,4720 }, {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 },
+ {  22,4720 }, {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 },
+ {  27,4720 }, {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 },
+ {  32,4720 }, {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 },
+ {  37,4720 }, {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 },
+ {  42,4720 }, {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 },
+ {  47,4720 }, {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 },
+ {  52,4720 }, {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 },
+ {  57,4720 }, {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 },
+ {  62,4720 }, {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 },
+
+ {  67,4720 }, {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 },
+ {  72,4720 }, {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 },
+ {  77,4720 }, {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 },
+ {  82,4720 }, {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 },
+ {  87,4720 }, {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 },
+ {  92,4720 }, {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 },
+ {  97,4720 }, {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 },
+ { 102,4720 }, { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 },
+ { 107,4720 }, { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 },
+ { 112,4720 }, { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 },
+
+ { 117,4720 }, { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 },
+ { 122,4720 }, { 123,4977 }, { 124,4720 }, { 125,4720 }, { 126,4720 },
+ { 127,4720 }, { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 },
+ { 132,4720 }, { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 },
+ { 137,4720 }, { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 },
+ { 142,4720 }, { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 },
+ { 147,4720 }, { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 },
+ { 152,4720 }, { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 },
+ { 157,4720 }, { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 },
+ { 162,4720 }, { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 },
+
+ { 167,4720 }, { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 },
+ { 172,4720 }, { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 },
+ { 177,4720 }, { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 },
+ { 182,4720 }, { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 },
+ { 187,4720 }, { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 },
+ { 192,4720 }, { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 },
+ { 197,4720 }, { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 },
+ { 202,4720 }, { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 },
+ { 207,4720 }, { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 },
+ { 212,4720 }, { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 },
+
+ { 217,4720 }, { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 },
+ { 222,4720 }, { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 },
+ { 227,4720 }, { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 },
+ { 232,4720 }, { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 },
+ { 237,4720 }, { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 },
+ { 242,4720 }, { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 },
+ { 247,4720 }, { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 },
+ { 252,4720 }, { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4979 },
+ {   0,   0 }, {   0,19830 }, {   1,4462 }, {   2,4462 }, {   3,4462 },
+ {   4,4462 }, {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 },
+
+ {   9,4462 }, {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 },
+ {  14,4462 }, {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 },
+ {  19,4462 }, {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 },
+ {  24,4462 }, {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 },
+ {  29,4462 }, {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 },
+ {  34,4462 }, {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 },
+ {  39,4462 }, {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 },
+ {  44,4462 }, {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 },
+ {  49,4462 }, {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 },
+ {  54,4462 }, {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 },
+
+ {  59,4462 }, {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 },
+ {  64,4462 }, {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 },
+ {  69,4462 }, {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 },
+ {  74,4462 }, {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 },
+ {  79,4462 }, {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 },
+ {  84,4462 }, {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 },
+ {  89,4462 }, {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 },
+ {  94,4462 }, {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 },
+ {  99,4462 }, { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 },
+ { 104,4462 }, { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 },
+
+ { 109,4462 }, { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 },
+ { 114,4462 }, { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 },
+ { 119,4462 }, { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4719 },
+ { 124,4462 }, { 125,4462 }, { 126,4462 }, { 127,4462 }, { 128,4462 },
+ { 129,4462 }, { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 },
+ { 134,4462 }, { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 },
+ { 139,4462 }, { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 },
+ { 144,4462 }, { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 },
+ { 149,4462 }, { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 },
+ { 154,4462 }, { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 },
+
+ { 159,4462 }, { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 },
+ { 164,4462 }, { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 },
+ { 169,4462 }, { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 },
+ { 174,4462 }, { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 },
+ { 179,4462 }, { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 },
+ { 184,4462 }, { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 },
+ { 189,4462 }, { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 },
+ { 194,4462 }, { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 },
+ { 199,4462 }, { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 },
+ { 204,4462 }, { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 },
+
+ { 209,4462 }, { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 },
+ { 214,4462 }, { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 },
+ { 219,4462 }, { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 },
+ { 224,4462 }, { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 },
+ { 229,4462 }, { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 },
+ { 234,4462 }, { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 },
+ { 239,4462 }, { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 },
+ { 244,4462 }, { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 },
+ { 249,4462 }, { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 },
+ { 254,4462 }, { 255,4462 }, { 256,4721 }, {   0,   2 }, {   0,19572 },
+
+ {   1,4586 }, {   2,4586 }, {   3,4586 }, {   4,4586 }, {   5,4586 },
+ {   6,4586 }, {   7,4586 }, {   8,4586 }, {   9,4586 }, {  10,4465 },
+ {  11,4586 }, {  12,4586 }, {  13,4465 }, {  14,4586 }, {  15,4586 },
+ {  16,4586 }, {  17,4586 }, {  18,4586 }, {  19,4586 }, {  20,4586 },
+ {  21,4586 }, {  22,4586 }, {  23,4586 }, {  24,4586 }, {  25,4586 },
+ {  26,4586 }, {  27,4586 }, {  28,4586 }, {  29,4586 }, {  30,4586 },
+ {  31,4586 }, {  32,4586 }, {  33,4586 }, {  34,4586 }, {  35,4586 },
+ {  36,4586 }, {  37,4586 }, {  38,4586 }, {  39,4586 }, {  40,4586 },
+ {  41,4586 }, {  42,4586 }, {  43,4586 }, {  44,4586 }, {  45,4586 },
+ {  46,4586 }, {  47,4586 }, {  48,4586 }, {  49,4586 }, {  50,4586 },
+
+ {  51,4586 }, {  52,4586 }, {  53,4586 }, {  54,4586 }, {  55,4586 },
+ {  56,4586 }, {  57,4586 }, {  58,4586 }, {  59,4586 }, {  60,4586 },
+ {  61,4586 }, {  62,4586 }, {  63,4586 }, {  64,4586 }, {  65,4586 },
+ {  66,4586 }, {  67,4586 }, {  68,4586 }, {  69,4586 }, {  70,4586 },
+ {  71,4586 }, {  72,4586 }, {  73,4586 }, {  74,4586 }, {  75,4586 },
+ {  76,4586 }, {  77,4586 }, {  78,4586 }, {  79,4586 }, {  80,4586 },
+ {  81,4586 }, {  82,4586 }, {  83,4586 }, {  84,4586 }, {  85,4586 },
+ {  86,4586 }, {  87,4586 }, {  88,4586 }, {  89,4586 }, {  90,4586 },
+ {  91,4586 }, {  92,4467 }, {  93,4586 }, {  94,4586 }, {  95,4586 },
+ {  96,4586 }, {  97,4586 }, {  98,4586 }, {  99,4586 }, { 100,4586 },
+
+ { 101,4586 }, { 102,4586 }, { 103,4586 }, { 104,4586 }, { 105,4586 },
+ { 106,4586 }, { 107,4586 }, { 108,4586 }, { 109,4586 }, { 110,4586 },
+ { 111,4586 }, { 112,4586 }, { 113,4586 }, { 114,4586 }, { 115,4586 },
+ { 116,4586 }, { 117,4586 }, { 118,4586 }, { 119,4586 }, { 120,4586 },
+ { 121,4586 }, { 122,4586 }, {   0,   0 }, { 124,4586 }, { 125,4586 },
+ { 126,4586 }, { 127,4586 }, { 128,4586 }, { 129,4586 }, { 130,4586 },
+ { 131,4586 }, { 132,4586 }, { 133,4586 }, { 134,4586 }, { 135,4586 },
+ { 136,4586 }, { 137,4586 }, { 138,4586 }, { 139,4586 }, { 140,4586 },
+ { 141,4586 }, { 142,4586 }, { 143,4586 }, { 144,4586 }, { 145,4586 },
+ { 146,4586 }, { 147,4586 }, { 148,4586 }, { 149,4586 }, { 150,4586 },
+
+ { 151,4586 }, { 152,4586 }, { 153,4586 }, { 154,4586 }, { 155,4586 },
+ { 156,4586 }, { 157,4586 }, { 158,4586 }, { 159,4586 }, { 160,4586 },
+ { 161,4586 }, { 162,4586 }, { 163,4586 }, { 164,4586 }, { 165,4586 },
+ { 166,4586 }, { 167,4586 }, { 168,4586 }, { 169,4586 }, { 170,4586 },
+ { 171,4586 }, { 172,4586 }, { 173,4586 }, { 174,4586 }, { 175,4586 },
+ { 176,4586 }, { 177,4586 }, { 178,4586 }, { 179,4586 }, { 180,4586 },
+ { 181,4586 }, { 182,4586 }, { 183,4586 }, { 184,4586 }, { 185,4586 },
+ { 186,4586 }, { 187,4586 }, { 188,4586 }, { 189,4586 }, { 190,4586 },
+ { 191,4586 }, { 192,4586 }, { 193,4586 }, { 194,4586 }, { 195,4586 },
+ { 196,4586 }, { 197,4586 }, { 198,4586 }, { 199,4586 }, { 200,4586 },
+
+ { 201,4586 }, { 202,4586 }, { 203,4586 }, { 204,4586 }, { 205,4586 },
+ { 206,4586 }, { 207,4586 }, { 208,4586 }, { 209,4586 }, { 210,4586 },
+ { 211,4586 }, { 212,4586 }, { 213,4586 }, { 214,4586 }, { 215,4586 },
+ { 216,4586 }, { 217,4586 }, { 218,4586 }, { 219,4586 }, { 220,4586 },
+ { 221,4586 }, { 222,4586 }, { 223,4586 }, { 224,4586 }, { 225,4586 },
+ { 226,4586 }, { 227,4586 }, { 228,4586 }, { 229,4586 }, { 230,4586 },
+ { 231,4586 }, { 232,4586 }, { 233,4586 }, { 234,4586 }, { 235,4586 },
+ { 236,4586 }, { 237,4586 }, { 238,4586 }, { 239,4586 }, { 240,4586 },
+ { 241,4586 }, { 242,4586 }, { 243,4586 }, { 244,4586 }, { 245,4586 },
+ { 246,4586 }, { 247,4586 }, { 248,4586 }, { 249,4586 }, { 250,4586 },
+
+ { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
+ {   0,   2 }, {   0,19315 }, {   0,   6 }, {   0,19313 }, {   0,   6 },
+ {   0,19311 }, {   0,   6 }, {   0,19309 }, {   0,  36 }, {   0,19307 },
+ {   0,   0 }, {  10,4208 }, {   0,   0 }, {   0,   0 }, {  13,4208 },
+ {   0,  36 }, {   0,19300 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
+ {   0,  51 }, {   0,19295 }, {  13,4867 }, {   0,  15 }, {   0,19292 },
+ {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,19288 }, {  13,4860 },
+ {   0,  35 }, {   0,19285 }, {   0,  32 }, {   0,19283 }, {   0,  41 },
+ {   0,19281 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4860 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4210 }, {   0,   0 },
+
+ {  92,4584 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 123,4586 }, {   0,   0 }, { 123,4586 }, {   0,   2 },
+ {   0,19186 }, {   1,4200 }, {   2,4200 }, {   3,4200 }, {   4,4200 },
+ {   5,4200 }, {   6,4200 }, {   7,4200 }, {   8,4200 }, {   9,4200 },
+ {  10,4079 }, {  11,4200 }, {  12,4200 }, {  13,4079 }, {  14,4200 },
+
+ {  15,4200 }, {  16,4200 }, {  17,4200 }, {  18,4200 }, {  19,4200 },
+ {  20,4200 }, {  21,4200 }, {  22,4200 }, {  23,4200 }, {  24,4200 },
+ {  25,4200 }, {  26,4200 }, {  27,4200 }, {  28,4200 }, {  29,4200 },
+ {  30,4200 }, {  31,4200 }, {  32,4200 }, {  33,4200 }, {  34,4200 },
+ {  35,4200 }, {  36,4200 }, {  37,4200 }, {  38,4200 }, {  39,4200 },
+ {  40,4200 }, {  41,4200 }, {  42,4200 }, {  43,4200 }, {  44,4200 },
+ {  45,4200 }, {  46,4200 }, {  47,4200 }, {  48,4200 }, {  49,4200 },
+ {  50,4200 }, {  51,4200 }, {  52,4200 }, {  53,4200 }, {  54,4200 },
+ {  55,4200 }, {  56,4200 }, {  57,4200 }, {  58,4200 }, {  59,4200 },
+ {  60,4200 }, {  61,4200 }, {  62,4200 }, {  63,4200 }, {  64,4200 },
+
+ {  65,4200 }, {  66,4200 }, {  67,4200 }, {  68,4200 }, {  69,4200 },
+ {  70,4200 }, {  71,4200 }, {  72,4200 }, {  73,4200 }, {  74,4200 },
+ {  75,4200 }, {  76,4200 }, {  77,4200 }, {  78,4200 }, {  79,4200 },
+ {  80,4200 }, {  81,4200 }, {  82,4200 }, {  83,4200 }, {  84,4200 },
+ {  85,4200 }, {  86,4200 }, {  87,4200 }, {  88,4200 }, {  89,4200 },
+ {  90,4200 }, {  91,4200 }, {  92,4081 }, {  93,4200 }, {  94,4200 },
+ {  95,4200 }, {  96,4200 }, {  97,4200 }, {  98,4200 }, {  99,4200 },
+ { 100,4200 }, { 101,4200 }, { 102,4200 }, { 103,4200 }, { 104,4200 },
+ { 105,4200 }, { 106,4200 }, { 107,4200 }, { 108,4200 }, { 109,4200 },
+ { 110,4200 }, { 111,4200 }, { 112,4200 }, { 113,4200 }, { 114,4200 },
+
+ { 115,4200 }, { 116,4200 }, { 117,4200 }, { 118,4200 }, { 119,4200 },
+ { 120,4200 }, { 121,4200 }, { 122,4200 }, {   0,   0 }, { 124,4200 },
+ { 125,4200 }, { 126,4200 }, { 127,4200 }, { 128,4200 }, { 129,4200 },
+ { 130,4200 }, { 131,4200 }, { 132,4200 }, { 133,4200 }, { 134,4200 },
+ { 135,4200 }, { 136,4200 }, { 137,4200 }, { 138,4200 }, { 139,4200 },
+ { 140,4200 }, { 141,4200 }, { 142,4200 }, { 143,4200 }, { 144,4200 },
+ { 145,4200 }, { 146,4200 }, { 147,4200 }, { 148,4200 }, { 149,4200 },
+ { 150,4200 }, { 151,4200 }, { 152,4200 }, { 153,4200 }, { 154,4200 },
+ { 155,4200 }, { 156,4200 }, { 157,4200 }, { 158,4200 }, { 159,4200 },
+ { 160,4200 }, { 161,4200 }, { 162,4200 }, { 163,4200 }, { 164,4200 },
+
+ { 165,4200 }, { 166,4200 }, { 167,4200 }, { 168,4200 }, { 169,4200 },
+ { 170,4200 }, { 171,4200 }, { 172,4200 }, { 173,4200 }, { 174,4200 },
+ { 175,4200 }, { 176,4200 }, { 177,4200 }, { 178,4200 }, { 179,4200 },
+ { 180,4200 }, { 181,4200 }, { 182,4200 }, { 183,4200 }, { 184,4200 },
+ { 185,4200 }, { 186,4200 }, { 187,4200 }, { 188,4200 }, { 189,4200 },
+ { 190,4200 }, { 191,4200 }, { 192,4200 }, { 193,4200 }, { 194,4200 },
+ { 195,4200 }, { 196,4200 }, { 197,4200 }, { 198,4200 }, { 199,4200 },
+ { 200,4200 }, { 201,4200 }, { 202,4200 }, { 203,4200 }, { 204,4200 },
+ { 205,4200 }, { 206,4200 }, { 207,4200 }, { 208,4200 }, { 209,4200 },
+ { 210,4200 }, { 211,4200 }, { 212,4200 }, { 213,4200 }, { 214,4200 },
+
+ { 215,4200 }, { 216,4200 }, { 217,4200 }, { 218,4200 }, { 219,4200 },
+ { 220,4200 }, { 221,4200 }, { 222,4200 }, { 223,4200 }, { 224,4200 },
+ { 225,4200 }, { 226,4200 }, { 227,4200 }, { 228,4200 }, { 229,4200 },
+ { 230,4200 }, { 231,4200 }, { 232,4200 }, { 233,4200 }, { 234,4200 },
+ { 235,4200 }, { 236,4200 }, { 237,4200 }, { 238,4200 }, { 239,4200 },
+ { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
+ { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
+ { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
+ { 255,4200 }, {   0,  51 }, {   0,18929 }, {   1,4231 }, {   2,4231 },
+ {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
+
+ {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
+ {  13,4206 }, {  14,4231 }, {  15,4231 }, {  16,4231 }, {  17,4231 },
+ {  18,4231 }, {  19,4231 }, {  20,4231 }, {  21,4231 }, {  22,4231 },
+ {  23,4231 }, {  24,4231 }, {  25,4231 }, {  26,4231 }, {  27,4231 },
+ {  28,4231 }, {  29,4231 }, {  30,4231 }, {  31,4231 }, {  32,4206 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4231 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4206 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,4231 }, {  46,4206 }, {  47,4206 },
+ {  48,4231 }, {  49,4231 }, {  50,4231 }, {  51,4231 }, {  52,4231 },
+ {  53,4231 }, {  54,4231 }, {  55,4231 }, {  56,4231 }, {  57,4231 },
+
+ {  58,4231 }, {   0,   0 }, {   0,   0 }, {  61,4206 }, {   0,   0 },
+ {  63,4231 }, {   0,   0 }, {  65,4231 }, {  66,4231 }, {  67,4231 },
+ {  68,4231 }, {  69,4231 }, {  70,4231 }, {  71,4231 }, {  72,4231 },
+ {  73,4231 }, {  74,4231 }, {  75,4231 }, {  76,4231 }, {  77,4231 },
+ {  78,4231 }, {  79,4231 }, {  80,4231 }, {  81,4231 }, {  82,4231 },
+ {  83,4231 }, {  84,4231 }, {  85,4231 }, {  86,4231 }, {  87,4231 },
+ {  88,4231 }, {  89,4231 }, {  90,4231 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,4231 }, {   0,   0 }, {  97,4231 },
+ {  98,4231 }, {  99,4231 }, { 100,4231 }, { 101,4231 }, { 102,4231 },
+ { 103,4231 }, { 104,4231 }, { 105,4231 }, { 106,4231 }, { 107,4231 },
+
+ { 108,4231 }, { 109,4231 }, { 110,4231 }, { 111,4231 }, { 112,4231 },
+ { 113,4231 }, { 114,4231 }, { 115,4231 }, { 116,4231 }, { 117,4231 },
+ { 118,4231 }, { 119,4231 }, { 120,4231 }, { 121,4231 }, { 122,4231 },
+ {   0,   0 }, { 124,4206 }, { 125,4206 }, { 126,4206 }, { 127,4231 },
+ { 128,4231 }, { 129,4231 }, { 130,4231 }, { 131,4231 }, { 132,4231 },
+ { 133,4231 }, { 134,4231 }, { 135,4231 }, { 136,4231 }, { 137,4231 },
+ { 138,4231 }, { 139,4231 }, { 140,4231 }, { 141,4231 }, { 142,4231 },
+ { 143,4231 }, { 144,4231 }, { 145,4231 }, { 146,4231 }, { 147,4231 },
+ { 148,4231 }, { 149,4231 }, { 150,4231 }, { 151,4231 }, { 152,4231 },
+ { 153,4231 }, { 154,4231 }, { 155,4231 }, { 156,4231 }, { 157,4231 },
+
+ { 158,4231 }, { 159,4231 }, { 160,4231 }, { 161,4231 }, { 162,4231 },
+ { 163,4231 }, { 164,4231 }, { 165,4231 }, { 166,4231 }, { 167,4231 },
+ { 168,4231 }, { 169,4231 }, { 170,4231 }, { 171,4231 }, { 172,4231 },
+ { 173,4231 }, { 174,4231 }, { 175,4231 }, { 176,4231 }, { 177,4231 },
+ { 178,4231 }, { 179,4231 }, { 180,4231 }, { 181,4231 }, { 182,4231 },
+ { 183,4231 }, { 184,4231 }, { 185,4231 }, { 186,4231 }, { 187,4231 },
+ { 188,4231 }, { 189,4231 }, { 190,4231 }, { 191,4231 }, { 192,4231 },
+ { 193,4231 }, { 194,4231 }, { 195,4231 }, { 196,4231 }, { 197,4231 },
+ { 198,4231 }, { 199,4231 }, { 200,4231 }, { 201,4231 }, { 202,4231 },
+ { 203,4231 }, { 204,4231 }, { 205,4231 }, { 206,4231 }, { 207,4231 },
+
+ { 208,4231 }, { 209,4231 }, { 210,4231 }, { 211,4231 }, { 212,4231 },
+ { 213,4231 }, { 214,4231 }, { 215,4231 }, { 216,4231 }, { 217,4231 },
+ { 218,4231 }, { 219,4231 }, { 220,4231 }, { 221,4231 }, { 222,4231 },
+ { 223,4231 }, { 224,4231 }, { 225,4231 }, { 226,4231 }, { 227,4231 },
+ { 228,4231 }, { 229,4231 }, { 230,4231 }, { 231,4231 }, { 232,4231 },
+ { 233,4231 }, { 234,4231 }, { 235,4231 }, { 236,4231 }, { 237,4231 },
+ { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
+ { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
+ { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
+ { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
+
+ {   0,18671 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
+ {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
+ {  10,4265 }, {  11,4265 }, {  12,4265 }, {  13,4265 }, {  14,4265 },
+ {  15,4265 }, {  16,4265 }, {  17,4265 }, {  18,4265 }, {  19,4265 },
+ {  20,4265 }, {  21,4265 }, {  22,4265 }, {  23,4265 }, {  24,4265 },
+ {  25,4265 }, {  26,4265 }, {  27,4265 }, {  28,4265 }, {  29,4265 },
+ {  30,4265 }, {  31,4265 }, {  32,4265 }, {  33,4265 }, {  34,4233 },
+ {  35,4265 }, {  36,4265 }, {  37,4265 }, {  38,4265 }, {  39,4265 },
+ {  40,4265 }, {  41,4265 }, {  42,4265 }, {  43,4265 }, {  44,4265 },
+ {  45,4265 }, {  46,4265 }, {  47,4265 }, {  48,4265 }, {  49,4265 },
+
+ {  50,4265 }, {  51,4265 }, {  52,4265 }, {  53,4265 }, {  54,4265 },
+ {  55,4265 }, {  56,4265 }, {  57,4265 }, {  58,4265 }, {  59,4265 },
+ {  60,4265 }, {  61,4265 }, {  62,4265 }, {  63,4265 }, {  64,4265 },
+ {  65,4265 }, {  66,4265 }, {  67,4265 }, {  68,4265 }, {  69,4265 },
+ {  70,4265 }, {  71,4265 }, {  72,4265 }, {  73,4265 }, {  74,4265 },
+ {  75,4265 }, {  76,4265 }, {  77,4265 }, {  78,4265 }, {  79,4265 },
+ {  80,4265 }, {  81,4265 }, {  82,4265 }, {  83,4265 }, {  84,4265 },
+ {  85,4265 }, {  86,4265 }, {  87,4265 }, {  88,4265 }, {  89,4265 },
+ {  90,4265 }, {  91,4265 }, {  92,4523 }, {  93,4265 }, {  94,4265 },
+ {  95,4265 }, {  96,4265 }, {  97,4265 }, {  98,4265 }, {  99,4265 },
+
+ { 100,4265 }, { 101,4265 }, { 102,4265 }, { 103,4265 }, { 104,4265 },
+ { 105,4265 }, { 106,4265 }, { 107,4265 }, { 108,4265 }, { 109,4265 },
+ { 110,4265 }, { 111,4265 }, { 112,4265 }, { 113,4265 }, { 114,4265 },
+ { 115,4265 }, { 116,4265 }, { 117,4265 }, { 118,4265 }, { 119,4265 },
+ { 120,4265 }, { 121,4265 }, { 122,4265 }, { 123,4265 }, { 124,4265 },
+ { 125,4265 }, { 126,4265 }, { 127,4265 }, { 128,4265 }, { 129,4265 },
+ { 130,4265 }, { 131,4265 }, { 132,4265 }, { 133,4265 }, { 134,4265 },
+ { 135,4265 }, { 136,4265 }, { 137,4265 }, { 138,4265 }, { 139,4265 },
+ { 140,4265 }, { 141,4265 }, { 142,4265 }, { 143,4265 }, { 144,4265 },
+ { 145,4265 }, { 146,4265 }, { 147,4265 }, { 148,4265 }, { 149,4265 },
+
+ { 150,4265 }, { 151,4265 }, { 152,4265 }, { 153,4265 }, { 154,4265 },
+ { 155,4265 }, { 156,4265 }, { 157,4265 }, { 158,4265 }, { 159,4265 },
+ { 160,4265 }, { 161,4265 }, { 162,4265 }, { 163,4265 }, { 164,4265 },
+ { 165,4265 }, { 166,4265 }, { 167,4265 }, { 168,4265 }, { 169,4265 },
+ { 170,4265 }, { 171,4265 }, { 172,4265 }, { 173,4265 }, { 174,4265 },
+ { 175,4265 }, { 176,4265 }, { 177,4265 }, { 178,4265 }, { 179,4265 },
+ { 180,4265 }, { 181,4265 }, { 182,4265 }, { 183,4265 }, { 184,4265 },
+ { 185,4265 }, { 186,4265 }, { 187,4265 }, { 188,4265 }, { 189,4265 },
+ { 190,4265 }, { 191,4265 }, { 192,4265 }, { 193,4265 }, { 194,4265 },
+ { 195,4265 }, { 196,4265 }, { 197,4265 }, { 198,4265 }, { 199,4265 },
+
+ { 200,4265 }, { 201,4265 }, { 202,4265 }, { 203,4265 }, { 204,4265 },
+ { 205,4265 }, { 206,4265 }, { 207,4265 }, { 208,4265 }, { 209,4265 },
+ { 210,4265 }, { 211,4265 }, { 212,4265 }, { 213,4265 }, { 214,4265 },
+ { 215,4265 }, { 216,4265 }, { 217,4265 }, { 218,4265 }, { 219,4265 },
+ { 220,4265 }, { 221,4265 }, { 222,4265 }, { 223,4265 }, { 224,4265 },
+ { 225,4265 }, { 226,4265 }, { 227,4265 }, { 228,4265 }, { 229,4265 },
+ { 230,4265 }, { 231,4265 }, { 232,4265 }, { 233,4265 }, { 234,4265 },
+ { 235,4265 }, { 236,4265 }, { 237,4265 }, { 238,4265 }, { 239,4265 },
+ { 240,4265 }, { 241,4265 }, { 242,4265 }, { 243,4265 }, { 244,4265 },
+ { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
+
+ { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
+ { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,18413 }, {   1,4523 },
+ {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
+ {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
+ {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
+ {  17,4523 }, {  18,4523 }, {  19,4523 }, {  20,4523 }, {  21,4523 },
+ {  22,4523 }, {  23,4523 }, {  24,4523 }, {  25,4523 }, {  26,4523 },
+ {  27,4523 }, {  28,4523 }, {  29,4523 }, {  30,4523 }, {  31,4523 },
+ {  32,4523 }, {  33,4523 }, {  34,4523 }, {  35,4523 }, {  36,4523 },
+ {  37,4523 }, {  38,4523 }, {  39,3977 }, {  40,4523 }, {  41,4523 },
+
+ {  42,4523 }, {  43,4523 }, {  44,4523 }, {  45,4523 }, {  46,4523 },
+ {  47,4523 }, {  48,4523 }, {  49,4523 }, {  50,4523 }, {  51,4523 },
+ {  52,4523 }, {  53,4523 }, {  54,4523 }, {  55,4523 }, {  56,4523 },
+ {  57,4523 }, {  58,4523 }, {  59,4523 }, {  60,4523 }, {  61,4523 },
+ {  62,4523 }, {  63,4523 }, {  64,4523 }, {  65,4523 }, {  66,4523 },
+ {  67,4523 }, {  68,4523 }, {  69,4523 }, {  70,4523 }, {  71,4523 },
+ {  72,4523 }, {  73,4523 }, {  74,4523 }, {  75,4523 }, {  76,4523 },
+ {  77,4523 }, {  78,4523 }, {  79,4523 }, {  80,4523 }, {  81,4523 },
+ {  82,4523 }, {  83,4523 }, {  84,4523 }, {  85,4523 }, {  86,4523 },
+ {  87,4523 }, {  88,4523 }, {  89,4523 }, {  90,4523 }, {  91,4523 },
+
+ {  92,4781 }, {  93,4523 }, {  94,4523 }, {  95,4523 }, {  96,4523 },
+ {  97,4523 }, {  98,4523 }, {  99,4523 }, { 100,4523 }, { 101,4523 },
+ { 102,4523 }, { 103,4523 }, { 104,4523 }, { 105,4523 }, { 106,4523 },
+ { 107,4523 }, { 108,4523 }, { 109,4523 }, { 110,4523 }, { 111,4523 },
+ { 112,4523 }, { 113,4523 }, { 114,4523 }, { 115,4523 }, { 116,4523 },
+ { 117,4523 }, { 118,4523 }, { 119,4523 }, { 120,4523 }, { 121,4523 },
+ { 122,4523 }, { 123,4523 }, { 124,4523 }, { 125,4523 }, { 126,4523 },
+ { 127,4523 }, { 128,4523 }, { 129,4523 }, { 130,4523 }, { 131,4523 },
+ { 132,4523 }, { 133,4523 }, { 134,4523 }, { 135,4523 }, { 136,4523 },
+ { 137,4523 }, { 138,4523 }, { 139,4523 }, { 140,4523 }, { 141,4523 },
+
+ { 142,4523 }, { 143,4523 }, { 144,4523 }, { 145,4523 }, { 146,4523 },
+ { 147,4523 }, { 148,4523 }, { 149,4523 }, { 150,4523 }, { 151,4523 },
+ { 152,4523 }, { 153,4523 }, { 154,4523 }, { 155,4523 }, { 156,4523 },
+ { 157,4523 }, { 158,4523 }, { 159,4523 }, { 160,4523 }, { 161,4523 },
+ { 162,4523 }, { 163,4523 }, { 164,4523 }, { 165,4523 }, { 166,4523 },
+ { 167,4523 }, { 168,4523 }, { 169,4523 }, { 170,4523 }, { 171,4523 },
+ { 172,4523 }, { 173,4523 }, { 174,4523 }, { 175,4523 }, { 176,4523 },
+ { 177,4523 }, { 178,4523 }, { 179,4523 }, { 180,4523 }, { 181,4523 },
+ { 182,4523 }, { 183,4523 }, { 184,4523 }, { 185,4523 }, { 186,4523 },
+ { 187,4523 }, { 188,4523 }, { 189,4523 }, { 190,4523 }, { 191,4523 },
+
+ { 192,4523 }, { 193,4523 }, { 194,4523 }, { 195,4523 }, { 196,4523 },
+ { 197,4523 }, { 198,4523 }, { 199,4523 }, { 200,4523 }, { 201,4523 },
+ { 202,4523 }, { 203,4523 }, { 204,4523 }, { 205,4523 }, { 206,4523 },
+ { 207,4523 }, { 208,4523 }, { 209,4523 }, { 210,4523 }, { 211,4523 },
+ { 212,4523 }, { 213,4523 }, { 214,4523 }, { 215,4523 }, { 216,4523 },
+ { 217,4523 }, { 218,4523 }, { 219,4523 }, { 220,4523 }, { 221,4523 },
+ { 222,4523 }, { 223,4523 }, { 224,4523 }, { 225,4523 }, { 226,4523 },
+ { 227,4523 }, { 228,4523 }, { 229,4523 }, { 230,4523 }, { 231,4523 },
+ { 232,4523 }, { 233,4523 }, { 234,4523 }, { 235,4523 }, { 236,4523 },
+ { 237,4523 }, { 238,4523 }, { 239,4523 }, { 240,4523 }, { 241,4523 },
+
+ { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
+ { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
+ { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
+ {   0,  51 }, {   0,18155 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
+ {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
+ {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
+ {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
+ {  19,3457 }, {  20,3457 }, {  21,3457 }, {  22,3457 }, {  23,3457 },
+ {  24,3457 }, {  25,3457 }, {  26,3457 }, {  27,3457 }, {  28,3457 },
+ {  29,3457 }, {  30,3457 }, {  31,3457 }, {  32,3432 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,3457 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3432 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,3457 }, {  46,3432 }, {  47,3432 }, {  48,4781 },
+ {  49,4781 }, {  50,4781 }, {  51,4781 }, {  52,4781 }, {  53,4781 },
+ {  54,4781 }, {  55,4781 }, {  56,4781 }, {  57,4781 }, {  58,3457 },
+ {   0,   0 }, {   0,   0 }, {  61,3432 }, {   0,   0 }, {  63,3457 },
+ {   0,   0 }, {  65,3457 }, {  66,3457 }, {  67,3457 }, {  68,3457 },
+ {  69,3457 }, {  70,3457 }, {  71,3457 }, {  72,3457 }, {  73,3457 },
+ {  74,3457 }, {  75,3457 }, {  76,3457 }, {  77,3457 }, {  78,3457 },
+ {  79,3457 }, {  80,3457 }, {  81,3457 }, {  82,3457 }, {  83,3457 },
+
+ {  84,3457 }, {  85,3457 }, {  86,3457 }, {  87,3457 }, {  88,3457 },
+ {  89,3457 }, {  90,3457 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,3457 }, {   0,   0 }, {  97,3457 }, {  98,3457 },
+ {  99,3457 }, { 100,3457 }, { 101,3457 }, { 102,3457 }, { 103,3457 },
+ { 104,3457 }, { 105,3457 }, { 106,3457 }, { 107,3457 }, { 108,3457 },
+ { 109,3457 }, { 110,3457 }, { 111,3457 }, { 112,3457 }, { 113,3457 },
+ { 114,3457 }, { 115,3457 }, { 116,3457 }, { 117,3457 }, { 118,3457 },
+ { 119,3457 }, { 120,3457 }, { 121,3457 }, { 122,3457 }, {   0,   0 },
+ { 124,3432 }, { 125,3432 }, { 126,3432 }, { 127,3457 }, { 128,3457 },
+ { 129,3457 }, { 130,3457 }, { 131,3457 }, { 132,3457 }, { 133,3457 },
+
+ { 134,3457 }, { 135,3457 }, { 136,3457 }, { 137,3457 }, { 138,3457 },
+ { 139,3457 }, { 140,3457 }, { 141,3457 }, { 142,3457 }, { 143,3457 },
+ { 144,3457 }, { 145,3457 }, { 146,3457 }, { 147,3457 }, { 148,3457 },
+ { 149,3457 }, { 150,3457 }, { 151,3457 }, { 152,3457 }, { 153,3457 },
+ { 154,3457 }, { 155,3457 }, { 156,3457 }, { 157,3457 }, { 158,3457 },
+ { 159,3457 }, { 160,3457 }, { 161,3457 }, { 162,3457 }, { 163,3457 },
+ { 164,3457 }, { 165,3457 }, { 166,3457 }, { 167,3457 }, { 168,3457 },
+ { 169,3457 }, { 170,3457 }, { 171,3457 }, { 172,3457 }, { 173,3457 },
+ { 174,3457 }, { 175,3457 }, { 176,3457 }, { 177,3457 }, { 178,3457 },
+ { 179,3457 }, { 180,3457 }, { 181,3457 }, { 182,3457 }, { 183,3457 },
+
+ { 184,3457 }, { 185,3457 }, { 186,3457 }, { 187,3457 }, { 188,3457 },
+ { 189,3457 }, { 190,3457 }, { 191,3457 }, { 192,3457 }, { 193,3457 },
+ { 194,3457 }, { 195,3457 }, { 196,3457 }, { 197,3457 }, { 198,3457 },
+ { 199,3457 }, { 200,3457 }, { 201,3457 }, { 202,3457 }, { 203,3457 },
+ { 204,3457 }, { 205,3457 }, { 206,3457 }, { 207,3457 }, { 208,3457 },
+ { 209,3457 }, { 210,3457 }, { 211,3457 }, { 212,3457 }, { 213,3457 },
+ { 214,3457 }, { 215,3457 }, { 216,3457 }, { 217,3457 }, { 218,3457 },
+ { 219,3457 }, { 220,3457 }, { 221,3457 }, { 222,3457 }, { 223,3457 },
+ { 224,3457 }, { 225,3457 }, { 226,3457 }, { 227,3457 }, { 228,3457 },
+ { 229,3457 }, { 230,3457 }, { 231,3457 }, { 232,3457 }, { 233,3457 },
+
+ { 234,3457 }, { 235,3457 }, { 236,3457 }, { 237,3457 }, { 238,3457 },
+ { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
+ { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
+ { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
+ { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,17897 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
+ {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,  51 }, {   0,17879 }, {   0,  43 }, {   0,17877 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,17848 }, {   0,  51 },
+ {   0,17846 }, {   0,   7 }, {   0,17844 }, {   0,  52 }, {   0,17842 },
+ {   0,  14 }, {   0,17840 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  51 }, {   0,17815 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
+ {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
+ {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
+ {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
+ {  19,3117 }, {  20,3117 }, {  21,3117 }, {  22,3117 }, {  23,3117 },
+ {  24,3117 }, {  25,3117 }, {  26,3117 }, {  27,3117 }, {  28,3117 },
+ {  29,3117 }, {  30,3117 }, {  31,3117 }, {  32,3387 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,3117 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3387 }, { 124,3463 }, { 125,3463 },
+
+ { 126,3463 }, {  45,3117 }, {  46,4699 }, {  47,3092 }, {  48,4441 },
+ {  49,4441 }, {  50,4441 }, {  51,4441 }, {  52,4441 }, {  53,4441 },
+ {  54,4441 }, {  55,4441 }, {  56,4441 }, {  57,4441 }, {  58,3117 },
+ { 123,6628 }, {   0,   0 }, {  61,3092 }, {   0,   0 }, {  63,3117 },
+ {   0,   0 }, {  65,3117 }, {  66,3117 }, {  67,3117 }, {  68,3117 },
+ {  69,3117 }, {  70,3117 }, {  71,3117 }, {  72,3117 }, {  73,3117 },
+ {  74,3117 }, {  75,3117 }, {  76,3117 }, {  77,3117 }, {  78,3117 },
+ {  79,3117 }, {  80,3117 }, {  81,3117 }, {  82,3117 }, {  83,3117 },
+ {  84,3117 }, {  85,3117 }, {  86,3117 }, {  87,3117 }, {  88,3117 },
+ {  89,3117 }, {  90,3117 }, {   0,   0 }, { 125,6599 }, { 126,6601 },
+
+ { 125,6601 }, {  95,3117 }, {   0,   0 }, {  97,3117 }, {  98,3117 },
+ {  99,3117 }, { 100,3117 }, { 101,3117 }, { 102,3117 }, { 103,3117 },
+ { 104,3117 }, { 105,3117 }, { 106,3117 }, { 107,3117 }, { 108,3117 },
+ { 109,3117 }, { 110,3117 }, { 111,3117 }, { 112,3117 }, { 113,3117 },
+ { 114,3117 }, { 115,3117 }, { 116,3117 }, { 117,3117 }, { 118,3117 },
+ { 119,3117 }, { 120,3117 }, { 121,3117 }, { 122,3117 }, {   0,   0 },
+ { 124,3092 }, { 125,3387 }, { 126,3387 }, { 127,3117 }, { 128,3117 },
+ { 129,3117 }, { 130,3117 }, { 131,3117 }, { 132,3117 }, { 133,3117 },
+ { 134,3117 }, { 135,3117 }, { 136,3117 }, { 137,3117 }, { 138,3117 },
+ { 139,3117 }, { 140,3117 }, { 141,3117 }, { 142,3117 }, { 143,3117 },
+
+ { 144,3117 }, { 145,3117 }, { 146,3117 }, { 147,3117 }, { 148,3117 },
+ { 149,3117 }, { 150,3117 }, { 151,3117 }, { 152,3117 }, { 153,3117 },
+ { 154,3117 }, { 155,3117 }, { 156,3117 }, { 157,3117 }, { 158,3117 },
+ { 159,3117 }, { 160,3117 }, { 161,3117 }, { 162,3117 }, { 163,3117 },
+ { 164,3117 }, { 165,3117 }, { 166,3117 }, { 167,3117 }, { 168,3117 },
+ { 169,3117 }, { 170,3117 }, { 171,3117 }, { 172,3117 }, { 173,3117 },
+ { 174,3117 }, { 175,3117 }, { 176,3117 }, { 177,3117 }, { 178,3117 },
+ { 179,3117 }, { 180,3117 }, { 181,3117 }, { 182,3117 }, { 183,3117 },
+ { 184,3117 }, { 185,3117 }, { 186,3117 }, { 187,3117 }, { 188,3117 },
+ { 189,3117 }, { 190,3117 }, { 191,3117 }, { 192,3117 }, { 193,3117 },
+
+ { 194,3117 }, { 195,3117 }, { 196,3117 }, { 197,3117 }, { 198,3117 },
+ { 199,3117 }, { 200,3117 }, { 201,3117 }, { 202,3117 }, { 203,3117 },
+ { 204,3117 }, { 205,3117 }, { 206,3117 }, { 207,3117 }, { 208,3117 },
+ { 209,3117 }, { 210,3117 }, { 211,3117 }, { 212,3117 }, { 213,3117 },
+ { 214,3117 }, { 215,3117 }, { 216,3117 }, { 217,3117 }, { 218,3117 },
+ { 219,3117 }, { 220,3117 }, { 221,3117 }, { 222,3117 }, { 223,3117 },
+ { 224,3117 }, { 225,3117 }, { 226,3117 }, { 227,3117 }, { 228,3117 },
+ { 229,3117 }, { 230,3117 }, { 231,3117 }, { 232,3117 }, { 233,3117 },
+ { 234,3117 }, { 235,3117 }, { 236,3117 }, { 237,3117 }, { 238,3117 },
+ { 239,3117 }, { 240,3117 }, { 241,3117 }, { 242,3117 }, { 243,3117 },
+
+ { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
+ { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
+ { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,17557 },
+ {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
+ {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
+ {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
+ {  16,4500 }, {  17,4500 }, {  18,4500 }, {  19,4500 }, {  20,4500 },
+ {  21,4500 }, {  22,4500 }, {  23,4500 }, {  24,4500 }, {  25,4500 },
+ {  26,4500 }, {  27,4500 }, {  28,4500 }, {  29,4500 }, {  30,4500 },
+ {  31,4500 }, {  32,4500 }, {  33,4500 }, {  34,4500 }, {  35,4500 },
+
+ {  36,4500 }, {  37,4500 }, {  38,4500 }, {  39,4500 }, {  40,4500 },
+ {  41,4500 }, {  42,4500 }, {  43,4500 }, {  44,4500 }, {  45,4500 },
+ {  46,4500 }, {  47,4500 }, {  48,4500 }, {  49,4500 }, {  50,4500 },
+ {  51,4500 }, {  52,4500 }, {  53,4500 }, {  54,4500 }, {  55,4500 },
+ {  56,4500 }, {  57,4500 }, {  58,4500 }, {  59,4500 }, {  60,4500 },
+ {  61,4500 }, {  62,4500 }, {  63,4500 }, {  64,4500 }, {  65,4500 },
+ {  66,4500 }, {  67,4500 }, {  68,4500 }, {  69,4500 }, {  70,4500 },
+ {  71,4500 }, {  72,4500 }, {  73,4500 }, {  74,4500 }, {  75,4500 },
+ {  76,4500 }, {  77,4500 }, {  78,4500 }, {  79,4500 }, {  80,4500 },
+ {  81,4500 }, {  82,4500 }, {  83,4500 }, {  84,4500 }, {  85,4500 },
+
+ {  86,4500 }, {  87,4500 }, {  88,4500 }, {  89,4500 }, {  90,4500 },
+ {  91,4500 }, {  92,4758 }, {  93,3132 }, {  94,4500 }, {  95,4500 },
+ {  96,4500 }, {  97,4500 }, {  98,4500 }, {  99,4500 }, { 100,4500 },
+ { 101,4500 }, { 102,4500 }, { 103,4500 }, { 104,4500 }, { 105,4500 },
+ { 106,4500 }, { 107,4500 }, { 108,4500 }, { 109,4500 }, { 110,4500 },
+ { 111,4500 }, { 112,4500 }, { 113,4500 }, { 114,4500 }, { 115,4500 },
+ { 116,4500 }, { 117,4500 }, { 118,4500 }, { 119,4500 }, { 120,4500 },
+ { 121,4500 }, { 122,4500 }, { 123,4500 }, { 124,4500 }, { 125,4500 },
+ { 126,4500 }, { 127,4500 }, { 128,4500 }, { 129,4500 }, { 130,4500 },
+ { 131,4500 }, { 132,4500 }, { 133,4500 }, { 134,4500 }, { 135,4500 },
+
+ { 136,4500 }, { 137,4500 }, { 138,4500 }, { 139,4500 }, { 140,4500 },
+ { 141,4500 }, { 142,4500 }, { 143,4500 }, { 144,4500 }, { 145,4500 },
+ { 146,4500 }, { 147,4500 }, { 148,4500 }, { 149,4500 }, { 150,4500 },
+ { 151,4500 }, { 152,4500 }, { 153,4500 }, { 154,4500 }, { 155,4500 },
+ { 156,4500 }, { 157,4500 }, { 158,4500 }, { 159,4500 }, { 160,4500 },
+ { 161,4500 }, { 162,4500 }, { 163,4500 }, { 164,4500 }, { 165,4500 },
+ { 166,4500 }, { 167,4500 }, { 168,4500 }, { 169,4500 }, { 170,4500 },
+ { 171,4500 }, { 172,4500 }, { 173,4500 }, { 174,4500 }, { 175,4500 },
+ { 176,4500 }, { 177,4500 }, { 178,4500 }, { 179,4500 }, { 180,4500 },
+ { 181,4500 }, { 182,4500 }, { 183,4500 }, { 184,4500 }, { 185,4500 },
+
+ { 186,4500 }, { 187,4500 }, { 188,4500 }, { 189,4500 }, { 190,4500 },
+ { 191,4500 }, { 192,4500 }, { 193,4500 }, { 194,4500 }, { 195,4500 },
+ { 196,4500 }, { 197,4500 }, { 198,4500 }, { 199,4500 }, { 200,4500 },
+ { 201,4500 }, { 202,4500 }, { 203,4500 }, { 204,4500 }, { 205,4500 },
+ { 206,4500 }, { 207,4500 }, { 208,4500 }, { 209,4500 }, { 210,4500 },
+ { 211,4500 }, { 212,4500 }, { 213,4500 }, { 214,4500 }, { 215,4500 },
+ { 216,4500 }, { 217,4500 }, { 218,4500 }, { 219,4500 }, { 220,4500 },
+ { 221,4500 }, { 222,4500 }, { 223,4500 }, { 224,4500 }, { 225,4500 },
+ { 226,4500 }, { 227,4500 }, { 228,4500 }, { 229,4500 }, { 230,4500 },
+ { 231,4500 }, { 232,4500 }, { 233,4500 }, { 234,4500 }, { 235,4500 },
+
+ { 236,4500 }, { 237,4500 }, { 238,4500 }, { 239,4500 }, { 240,4500 },
+ { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
+ { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
+ { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
+ { 256,4500 }, {   0,  51 }, {   0,17299 }, {   1,2601 }, {   2,2601 },
+ {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
+ {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
+ {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
+ {  18,2601 }, {  19,2601 }, {  20,2601 }, {  21,2601 }, {  22,2601 },
+ {  23,2601 }, {  24,2601 }, {  25,2601 }, {  26,2601 }, {  27,2601 },
+
+ {  28,2601 }, {  29,2601 }, {  30,2601 }, {  31,2601 }, {  32,2576 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2601 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2576 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2601 }, {  46,2576 }, {  47,2576 },
+ {  48,2601 }, {  49,2601 }, {  50,2601 }, {  51,2601 }, {  52,2601 },
+ {  53,2601 }, {  54,2601 }, {  55,2601 }, {  56,2601 }, {  57,2601 },
+ {  58,2601 }, {   0,   0 }, {   0,   0 }, {  61,2576 }, {   0,   0 },
+ {  63,2601 }, {   0,   0 }, {  65,2601 }, {  66,2601 }, {  67,2601 },
+ {  68,2601 }, {  69,2601 }, {  70,2601 }, {  71,2601 }, {  72,2601 },
+ {  73,2601 }, {  74,2601 }, {  75,2601 }, {  76,2601 }, {  77,2601 },
+
+ {  78,2601 }, {  79,2601 }, {  80,2601 }, {  81,2601 }, {  82,2601 },
+ {  83,2601 }, {  84,2601 }, {  85,2601 }, {  86,2601 }, {  87,2601 },
+ {  88,2601 }, {  89,2601 }, {  90,2601 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,2601 }, {   0,   0 }, {  97,2601 },
+ {  98,2601 }, {  99,2601 }, { 100,2601 }, { 101,2601 }, { 102,2601 },
+ { 103,2601 }, { 104,2601 }, { 105,2601 }, { 106,2601 }, { 107,2601 },
+ { 108,2601 }, { 109,2601 }, { 110,2601 }, { 111,2601 }, { 112,2601 },
+ { 113,2601 }, { 114,2601 }, { 115,4758 }, { 116,2601 }, { 117,2601 },
+ { 118,2601 }, { 119,2601 }, { 120,2601 }, { 121,2601 }, { 122,2601 },
+ {   0,   0 }, { 124,2576 }, { 125,2576 }, { 126,2576 }, { 127,2601 },
+
+ { 128,2601 }, { 129,2601 }, { 130,2601 }, { 131,2601 }, { 132,2601 },
+ { 133,2601 }, { 134,2601 }, { 135,2601 }, { 136,2601 }, { 137,2601 },
+ { 138,2601 }, { 139,2601 }, { 140,2601 }, { 141,2601 }, { 142,2601 },
+ { 143,2601 }, { 144,2601 }, { 145,2601 }, { 146,2601 }, { 147,2601 },
+ { 148,2601 }, { 149,2601 }, { 150,2601 }, { 151,2601 }, { 152,2601 },
+ { 153,2601 }, { 154,2601 }, { 155,2601 }, { 156,2601 }, { 157,2601 },
+ { 158,2601 }, { 159,2601 }, { 160,2601 }, { 161,2601 }, { 162,2601 },
+ { 163,2601 }, { 164,2601 }, { 165,2601 }, { 166,2601 }, { 167,2601 },
+ { 168,2601 }, { 169,2601 }, { 170,2601 }, { 171,2601 }, { 172,2601 },
+ { 173,2601 }, { 174,2601 }, { 175,2601 }, { 176,2601 }, { 177,2601 },
+
+ { 178,2601 }, { 179,2601 }, { 180,2601 }, { 181,2601 }, { 182,2601 },
+ { 183,2601 }, { 184,2601 }, { 185,2601 }, { 186,2601 }, { 187,2601 },
+ { 188,2601 }, { 189,2601 }, { 190,2601 }, { 191,2601 }, { 192,2601 },
+ { 193,2601 }, { 194,2601 }, { 195,2601 }, { 196,2601 }, { 197,2601 },
+ { 198,2601 }, { 199,2601 }, { 200,2601 }, { 201,2601 }, { 202,2601 },
+ { 203,2601 }, { 204,2601 }, { 205,2601 }, { 206,2601 }, { 207,2601 },
+ { 208,2601 }, { 209,2601 }, { 210,2601 }, { 211,2601 }, { 212,2601 },
+ { 213,2601 }, { 214,2601 }, { 215,2601 }, { 216,2601 }, { 217,2601 },
+ { 218,2601 }, { 219,2601 }, { 220,2601 }, { 221,2601 }, { 222,2601 },
+ { 223,2601 }, { 224,2601 }, { 225,2601 }, { 226,2601 }, { 227,2601 },
+
+ { 228,2601 }, { 229,2601 }, { 230,2601 }, { 231,2601 }, { 232,2601 },
+ { 233,2601 }, { 234,2601 }, { 235,2601 }, { 236,2601 }, { 237,2601 },
+ { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
+ { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
+ { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
+ { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
+ {   0,17041 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
+ {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
+ {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
+ {  15,2343 }, {  16,2343 }, {  17,2343 }, {  18,2343 }, {  19,2343 },
+
+ {  20,2343 }, {  21,2343 }, {  22,2343 }, {  23,2343 }, {  24,2343 },
+ {  25,2343 }, {  26,2343 }, {  27,2343 }, {  28,2343 }, {  29,2343 },
+ {  30,2343 }, {  31,2343 }, {  32,2318 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,2318 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2343 }, {  46,2318 }, {  47,2318 }, {  48,2343 }, {  49,2343 },
+ {  50,2343 }, {  51,2343 }, {  52,2343 }, {  53,2343 }, {  54,2343 },
+ {  55,2343 }, {  56,2343 }, {  57,2343 }, {  58,2343 }, {   0,   0 },
+ {   0,   0 }, {  61,2318 }, {   0,   0 }, {  63,2343 }, {   0,   0 },
+ {  65,2343 }, {  66,2343 }, {  67,2343 }, {  68,2343 }, {  69,2343 },
+
+ {  70,2343 }, {  71,2343 }, {  72,2343 }, {  73,2343 }, {  74,2343 },
+ {  75,2343 }, {  76,2343 }, {  77,2343 }, {  78,2343 }, {  79,2343 },
+ {  80,2343 }, {  81,2343 }, {  82,2343 }, {  83,2343 }, {  84,2343 },
+ {  85,2343 }, {  86,2343 }, {  87,2343 }, {  88,2343 }, {  89,2343 },
+ {  90,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,2343 }, {   0,   0 }, {  97,4758 }, {  98,2343 }, {  99,2343 },
+ { 100,2343 }, { 101,2343 }, { 102,2343 }, { 103,2343 }, { 104,2343 },
+ { 105,2343 }, { 106,2343 }, { 107,2343 }, { 108,2343 }, { 109,2343 },
+ { 110,2343 }, { 111,2343 }, { 112,2343 }, { 113,2343 }, { 114,2343 },
+ { 115,2343 }, { 116,2343 }, { 117,2343 }, { 118,2343 }, { 119,2343 },
+
+ { 120,2343 }, { 121,2343 }, { 122,2343 }, {   0,   0 }, { 124,2318 },
+ { 125,2318 }, { 126,2318 }, { 127,2343 }, { 128,2343 }, { 129,2343 },
+ { 130,2343 }, { 131,2343 }, { 132,2343 }, { 133,2343 }, { 134,2343 },
+ { 135,2343 }, { 136,2343 }, { 137,2343 }, { 138,2343 }, { 139,2343 },
+ { 140,2343 }, { 141,2343 }, { 142,2343 }, { 143,2343 }, { 144,2343 },
+ { 145,2343 }, { 146,2343 }, { 147,2343 }, { 148,2343 }, { 149,2343 },
+ { 150,2343 }, { 151,2343 }, { 152,2343 }, { 153,2343 }, { 154,2343 },
+ { 155,2343 }, { 156,2343 }, { 157,2343 }, { 158,2343 }, { 159,2343 },
+ { 160,2343 }, { 161,2343 }, { 162,2343 }, { 163,2343 }, { 164,2343 },
+ { 165,2343 }, { 166,2343 }, { 167,2343 }, { 168,2343 }, { 169,2343 },
+
+ { 170,2343 }, { 171,2343 }, { 172,2343 }, { 173,2343 }, { 174,2343 },
+ { 175,2343 }, { 176,2343 }, { 177,2343 }, { 178,2343 }, { 179,2343 },
+ { 180,2343 }, { 181,2343 }, { 182,2343 }, { 183,2343 }, { 184,2343 },
+ { 185,2343 }, { 186,2343 }, { 187,2343 }, { 188,2343 }, { 189,2343 },
+ { 190,2343 }, { 191,2343 }, { 192,2343 }, { 193,2343 }, { 194,2343 },
+ { 195,2343 }, { 196,2343 }, { 197,2343 }, { 198,2343 }, { 199,2343 },
+ { 200,2343 }, { 201,2343 }, { 202,2343 }, { 203,2343 }, { 204,2343 },
+ { 205,2343 }, { 206,2343 }, { 207,2343 }, { 208,2343 }, { 209,2343 },
+ { 210,2343 }, { 211,2343 }, { 212,2343 }, { 213,2343 }, { 214,2343 },
+ { 215,2343 }, { 216,2343 }, { 217,2343 }, { 218,2343 }, { 219,2343 },
+
+ { 220,2343 }, { 221,2343 }, { 222,2343 }, { 223,2343 }, { 224,2343 },
+ { 225,2343 }, { 226,2343 }, { 227,2343 }, { 228,2343 }, { 229,2343 },
+ { 230,2343 }, { 231,2343 }, { 232,2343 }, { 233,2343 }, { 234,2343 },
+ { 235,2343 }, { 236,2343 }, { 237,2343 }, { 238,2343 }, { 239,2343 },
+ { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
+ { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
+ { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
+ { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,16783 }, {   1,2085 },
+ {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
+ {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
+
+ {  12,2085 }, {  13,2060 }, {  14,2085 }, {  15,2085 }, {  16,2085 },
+ {  17,2085 }, {  18,2085 }, {  19,2085 }, {  20,2085 }, {  21,2085 },
+ {  22,2085 }, {  23,2085 }, {  24,2085 }, {  25,2085 }, {  26,2085 },
+ {  27,2085 }, {  28,2085 }, {  29,2085 }, {  30,2085 }, {  31,2085 },
+ {  32,2060 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2085 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2060 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2085 }, {  46,2060 },
+ {  47,2060 }, {  48,2085 }, {  49,2085 }, {  50,2085 }, {  51,2085 },
+ {  52,2085 }, {  53,2085 }, {  54,2085 }, {  55,2085 }, {  56,2085 },
+ {  57,2085 }, {  58,2085 }, {   0,   0 }, {   0,   0 }, {  61,2060 },
+
+ {   0,   0 }, {  63,2085 }, {   0,   0 }, {  65,2085 }, {  66,2085 },
+ {  67,2085 }, {  68,2085 }, {  69,2085 }, {  70,2085 }, {  71,2085 },
+ {  72,2085 }, {  73,2085 }, {  74,2085 }, {  75,2085 }, {  76,2085 },
+ {  77,2085 }, {  78,2085 }, {  79,2085 }, {  80,2085 }, {  81,2085 },
+ {  82,2085 }, {  83,2085 }, {  84,2085 }, {  85,2085 }, {  86,2085 },
+ {  87,2085 }, {  88,2085 }, {  89,2085 }, {  90,2085 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2085 }, {   0,   0 },
+ {  97,2085 }, {  98,2085 }, {  99,2085 }, { 100,2085 }, { 101,2085 },
+ { 102,2085 }, { 103,2085 }, { 104,2085 }, { 105,2085 }, { 106,2085 },
+ { 107,2085 }, { 108,2085 }, { 109,2085 }, { 110,2085 }, { 111,2085 },
+
+ { 112,2085 }, { 113,2085 }, { 114,2085 }, { 115,2085 }, { 116,2085 },
+ { 117,4758 }, { 118,2085 }, { 119,2085 }, { 120,2085 }, { 121,2085 },
+ { 122,2085 }, {   0,   0 }, { 124,2060 }, { 125,2060 }, { 126,2060 },
+ { 127,2085 }, { 128,2085 }, { 129,2085 }, { 130,2085 }, { 131,2085 },
+ { 132,2085 }, { 133,2085 }, { 134,2085 }, { 135,2085 }, { 136,2085 },
+ { 137,2085 }, { 138,2085 }, { 139,2085 }, { 140,2085 }, { 141,2085 },
+ { 142,2085 }, { 143,2085 }, { 144,2085 }, { 145,2085 }, { 146,2085 },
+ { 147,2085 }, { 148,2085 }, { 149,2085 }, { 150,2085 }, { 151,2085 },
+ { 152,2085 }, { 153,2085 }, { 154,2085 }, { 155,2085 }, { 156,2085 },
+ { 157,2085 }, { 158,2085 }, { 159,2085 }, { 160,2085 }, { 161,2085 },
+
+ { 162,2085 }, { 163,2085 }, { 164,2085 }, { 165,2085 }, { 166,2085 },
+ { 167,2085 }, { 168,2085 }, { 169,2085 }, { 170,2085 }, { 171,2085 },
+ { 172,2085 }, { 173,2085 }, { 174,2085 }, { 175,2085 }, { 176,2085 },
+ { 177,2085 }, { 178,2085 }, { 179,2085 }, { 180,2085 }, { 181,2085 },
+ { 182,2085 }, { 183,2085 }, { 184,2085 }, { 185,2085 }, { 186,2085 },
+ { 187,2085 }, { 188,2085 }, { 189,2085 }, { 190,2085 }, { 191,2085 },
+ { 192,2085 }, { 193,2085 }, { 194,2085 }, { 195,2085 }, { 196,2085 },
+ { 197,2085 }, { 198,2085 }, { 199,2085 }, { 200,2085 }, { 201,2085 },
+ { 202,2085 }, { 203,2085 }, { 204,2085 }, { 205,2085 }, { 206,2085 },
+ { 207,2085 }, { 208,2085 }, { 209,2085 }, { 210,2085 }, { 211,2085 },
+
+ { 212,2085 }, { 213,2085 }, { 214,2085 }, { 215,2085 }, { 216,2085 },
+ { 217,2085 }, { 218,2085 }, { 219,2085 }, { 220,2085 }, { 221,2085 },
+ { 222,2085 }, { 223,2085 }, { 224,2085 }, { 225,2085 }, { 226,2085 },
+ { 227,2085 }, { 228,2085 }, { 229,2085 }, { 230,2085 }, { 231,2085 },
+ { 232,2085 }, { 233,2085 }, { 234,2085 }, { 235,2085 }, { 236,2085 },
+ { 237,2085 }, { 238,2085 }, { 239,2085 }, { 240,2085 }, { 241,2085 },
+ { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
+ { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
+ { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
+ {   0,  51 }, {   0,16525 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
+
+ {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
+ {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
+ {  14,1827 }, {  15,1827 }, {  16,1827 }, {  17,1827 }, {  18,1827 },
+ {  19,1827 }, {  20,1827 }, {  21,1827 }, {  22,1827 }, {  23,1827 },
+ {  24,1827 }, {  25,1827 }, {  26,1827 }, {  27,1827 }, {  28,1827 },
+ {  29,1827 }, {  30,1827 }, {  31,1827 }, {  32,1802 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1827 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1802 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1827 }, {  46,1802 }, {  47,1802 }, {  48,1827 },
+ {  49,1827 }, {  50,1827 }, {  51,1827 }, {  52,1827 }, {  53,1827 },
+
+ {  54,1827 }, {  55,1827 }, {  56,1827 }, {  57,1827 }, {  58,1827 },
+ {   0,   0 }, {   0,   0 }, {  61,1802 }, {   0,   0 }, {  63,1827 },
+ {   0,   0 }, {  65,1827 }, {  66,1827 }, {  67,1827 }, {  68,1827 },
+ {  69,1827 }, {  70,1827 }, {  71,1827 }, {  72,1827 }, {  73,1827 },
+ {  74,1827 }, {  75,1827 }, {  76,1827 }, {  77,1827 }, {  78,1827 },
+ {  79,1827 }, {  80,1827 }, {  81,1827 }, {  82,1827 }, {  83,1827 },
+ {  84,1827 }, {  85,1827 }, {  86,1827 }, {  87,1827 }, {  88,1827 },
+ {  89,1827 }, {  90,1827 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1827 }, {   0,   0 }, {  97,1827 }, {  98,1827 },
+ {  99,1827 }, { 100,1827 }, { 101,1827 }, { 102,1827 }, { 103,1827 },
+
+ { 104,1827 }, { 105,1827 }, { 106,1827 }, { 107,1827 }, { 108,1827 },
+ { 109,1827 }, { 110,1827 }, { 111,1827 }, { 112,1827 }, { 113,1827 },
+ { 114,4758 }, { 115,1827 }, { 116,1827 }, { 117,1827 }, { 118,1827 },
+ { 119,1827 }, { 120,1827 }, { 121,1827 }, { 122,1827 }, {   0,   0 },
+ { 124,1802 }, { 125,1802 }, { 126,1802 }, { 127,1827 }, { 128,1827 },
+ { 129,1827 }, { 130,1827 }, { 131,1827 }, { 132,1827 }, { 133,1827 },
+ { 134,1827 }, { 135,1827 }, { 136,1827 }, { 137,1827 }, { 138,1827 },
+ { 139,1827 }, { 140,1827 }, { 141,1827 }, { 142,1827 }, { 143,1827 },
+ { 144,1827 }, { 145,1827 }, { 146,1827 }, { 147,1827 }, { 148,1827 },
+ { 149,1827 }, { 150,1827 }, { 151,1827 }, { 152,1827 }, { 153,1827 },
+
+ { 154,1827 }, { 155,1827 }, { 156,1827 }, { 157,1827 }, { 158,1827 },
+ { 159,1827 }, { 160,1827 }, { 161,1827 }, { 162,1827 }, { 163,1827 },
+ { 164,1827 }, { 165,1827 }, { 166,1827 }, { 167,1827 }, { 168,1827 },
+ { 169,1827 }, { 170,1827 }, { 171,1827 }, { 172,1827 }, { 173,1827 },
+ { 174,1827 }, { 175,1827 }, { 176,1827 }, { 177,1827 }, { 178,1827 },
+ { 179,1827 }, { 180,1827 }, { 181,1827 }, { 182,1827 }, { 183,1827 },
+ { 184,1827 }, { 185,1827 }, { 186,1827 }, { 187,1827 }, { 188,1827 },
+ { 189,1827 }, { 190,1827 }, { 191,1827 }, { 192,1827 }, { 193,1827 },
+ { 194,1827 }, { 195,1827 }, { 196,1827 }, { 197,1827 }, { 198,1827 },
+ { 199,1827 }, { 200,1827 }, { 201,1827 }, { 202,1827 }, { 203,1827 },
+
+ { 204,1827 }, { 205,1827 }, { 206,1827 }, { 207,1827 }, { 208,1827 },
+ { 209,1827 }, { 210,1827 }, { 211,1827 }, { 212,1827 }, { 213,1827 },
+ { 214,1827 }, { 215,1827 }, { 216,1827 }, { 217,1827 }, { 218,1827 },
+ { 219,1827 }, { 220,1827 }, { 221,1827 }, { 222,1827 }, { 223,1827 },
+ { 224,1827 }, { 225,1827 }, { 226,1827 }, { 227,1827 }, { 228,1827 },
+ { 229,1827 }, { 230,1827 }, { 231,1827 }, { 232,1827 }, { 233,1827 },
+ { 234,1827 }, { 235,1827 }, { 236,1827 }, { 237,1827 }, { 238,1827 },
+ { 239,1827 }, { 240,1827 }, { 241,1827 }, { 242,1827 }, { 243,1827 },
+ { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
+ { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
+
+ { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,16267 },
+ {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
+ {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
+ {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
+ {  16,1569 }, {  17,1569 }, {  18,1569 }, {  19,1569 }, {  20,1569 },
+ {  21,1569 }, {  22,1569 }, {  23,1569 }, {  24,1569 }, {  25,1569 },
+ {  26,1569 }, {  27,1569 }, {  28,1569 }, {  29,1569 }, {  30,1569 },
+ {  31,1569 }, {  32,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,1569 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1569 },
+
+ {  46,1544 }, {  47,1544 }, {  48,1569 }, {  49,1569 }, {  50,1569 },
+ {  51,1569 }, {  52,1569 }, {  53,1569 }, {  54,1569 }, {  55,1569 },
+ {  56,1569 }, {  57,1569 }, {  58,1569 }, {   0,   0 }, {   0,   0 },
+ {  61,1544 }, {   0,   0 }, {  63,1569 }, {   0,   0 }, {  65,1569 },
+ {  66,1569 }, {  67,1569 }, {  68,1569 }, {  69,1569 }, {  70,1569 },
+ {  71,1569 }, {  72,1569 }, {  73,1569 }, {  74,1569 }, {  75,1569 },
+ {  76,1569 }, {  77,1569 }, {  78,1569 }, {  79,1569 }, {  80,1569 },
+ {  81,1569 }, {  82,1569 }, {  83,1569 }, {  84,1569 }, {  85,1569 },
+ {  86,1569 }, {  87,1569 }, {  88,1569 }, {  89,1569 }, {  90,1569 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1569 },
+
+ {   0,   0 }, {  97,1569 }, {  98,1569 }, {  99,1569 }, { 100,1569 },
+ { 101,1569 }, { 102,1569 }, { 103,1569 }, { 104,1569 }, { 105,1569 },
+ { 106,1569 }, { 107,1569 }, { 108,1569 }, { 109,1569 }, { 110,4758 },
+ { 111,1569 }, { 112,1569 }, { 113,1569 }, { 114,1569 }, { 115,1569 },
+ { 116,1569 }, { 117,1569 }, { 118,1569 }, { 119,1569 }, { 120,1569 },
+ { 121,1569 }, { 122,1569 }, {   0,   0 }, { 124,1544 }, { 125,1544 },
+ { 126,1544 }, { 127,1569 }, { 128,1569 }, { 129,1569 }, { 130,1569 },
+ { 131,1569 }, { 132,1569 }, { 133,1569 }, { 134,1569 }, { 135,1569 },
+ { 136,1569 }, { 137,1569 }, { 138,1569 }, { 139,1569 }, { 140,1569 },
+ { 141,1569 }, { 142,1569 }, { 143,1569 }, { 144,1569 }, { 145,1569 },
+
+ { 146,1569 }, { 147,1569 }, { 148,1569 }, { 149,1569 }, { 150,1569 },
+ { 151,1569 }, { 152,1569 }, { 153,1569 }, { 154,1569 }, { 155,1569 },
+ { 156,1569 }, { 157,1569 }, { 158,1569 }, { 159,1569 }, { 160,1569 },
+ { 161,1569 }, { 162,1569 }, { 163,1569 }, { 164,1569 }, { 165,1569 },
+ { 166,1569 }, { 167,1569 }, { 168,1569 }, { 169,1569 }, { 170,1569 },
+ { 171,1569 }, { 172,1569 }, { 173,1569 }, { 174,1569 }, { 175,1569 },
+ { 176,1569 }, { 177,1569 }, { 178,1569 }, { 179,1569 }, { 180,1569 },
+ { 181,1569 }, { 182,1569 }, { 183,1569 }, { 184,1569 }, { 185,1569 },
+ { 186,1569 }, { 187,1569 }, { 188,1569 }, { 189,1569 }, { 190,1569 },
+ { 191,1569 }, { 192,1569 }, { 193,1569 }, { 194,1569 }, { 195,1569 },
+
+ { 196,1569 }, { 197,1569 }, { 198,1569 }, { 199,1569 }, { 200,1569 },
+ { 201,1569 }, { 202,1569 }, { 203,1569 }, { 204,1569 }, { 205,1569 },
+ { 206,1569 }, { 207,1569 }, { 208,1569 }, { 209,1569 }, { 210,1569 },
+ { 211,1569 }, { 212,1569 }, { 213,1569 }, { 214,1569 }, { 215,1569 },
+ { 216,1569 }, { 217,1569 }, { 218,1569 }, { 219,1569 }, { 220,1569 },
+ { 221,1569 }, { 222,1569 }, { 223,1569 }, { 224,1569 }, { 225,1569 },
+ { 226,1569 }, { 227,1569 }, { 228,1569 }, { 229,1569 }, { 230,1569 },
+ { 231,1569 }, { 232,1569 }, { 233,1569 }, { 234,1569 }, { 235,1569 },
+ { 236,1569 }, { 237,1569 }, { 238,1569 }, { 239,1569 }, { 240,1569 },
+ { 241,1569 }, { 242,1569 }, { 243,1569 }, { 244,1569 }, { 245,1569 },
+
+ { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
+ { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
+ { 256,1569 }, {   0,  14 }, {   0,16009 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 123,4766 }, {   0,  14 }, {   0,15884 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
+
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
  {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
  {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
  {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
  {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
-
  {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
  {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
  {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
  {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
  {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
+
  {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
  {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
  {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
  {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
  {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
-
  {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
  {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
  {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
  { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
  { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
+
  { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
  { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
  { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
  { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
  { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
-
  { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
  { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
  { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
  { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
  { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
+
  { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
  { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
  { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
  { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
  { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
-
  { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
  { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
  { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
  { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
  { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
+
  { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
  { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
  { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
  { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
  { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
-
  { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12962 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
+ {   0,15626 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
  {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
  {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
-
  {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
  {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
  {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
  {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
  {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
+
  {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
  {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
  {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
  {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
  {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
-
  {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
  {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
  {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
  {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
  { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
+
  { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
  { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
  { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
  { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
  { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
-
  { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
  { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
  { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
  { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
  { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
+
  { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
  { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
  { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
  { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
  { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
-
  { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
  { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
  { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
  { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
  { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
+
  { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
  { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
  { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
  { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
  { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
-
  { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
  { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12704 }, {   1,4769 },
+
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,15368 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
  {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
-
  {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
  {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
  {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
  {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
  {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
+
  {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
  {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
  {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
  {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
  {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
-
  {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
  {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
  {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
  {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
  {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
+
  {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
  { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
  { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
  { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
  { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
-
  { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
  { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
  { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
  { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
  { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
+
  { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
  { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
  { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
  { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
  { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
-
  { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
  { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
  { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
  { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
  { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
+
  { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
  { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
  { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
  { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
  { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
-
  { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
  { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
  { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
  { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
+
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12447 }, {   0,   2 }, {   0,12445 }, {   0,   0 }, {   0,12443 },
+ {   0,15111 }, {   0,  11 }, {   0,15109 }, {   0,   2 }, {   0,15107 },
+ {   0,   0 }, {   0,15105 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  10,   0 },
+ {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
-
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 },
- {   0,   0 }, {  92,4767 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  92,   2 }, {   0,   0 }, {  92,4765 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12322 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,14986 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+ {  10,-121 }, {  11,   0 }, {  12,   0 }, {  13,-121 }, {  14,   0 },
+
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
-
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
-
- {  90,   0 }, {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 },
+ {  90,   0 }, {  91,   0 }, {  92,-119 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
-
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
-
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
-
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12065 }, {   0,   0 }, {   0,12063 },
- {   0,   5 }, {   0,12061 }, {   0,  48 }, {   0,12059 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,14729 }, {   0,   0 }, {   0,14727 },
+ {   0,   5 }, {   0,14725 }, {   0,  49 }, {   0,14723 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12034 }, {   1,   0 },
-
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,14698 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
  {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
  {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
-
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
  {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
  {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
  { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
-
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
  { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
+
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
  { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
-
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
  { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
  { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
  { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
-
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
  { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
  { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
-
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11776 }, {   0,  38 }, {   0,11774 }, {   0,  39 },
- {   0,11772 }, {   0,  33 }, {   0,11770 }, {   0,  32 }, {   0,11768 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11764 }, {  13,   0 },
- {   0,  49 }, {   0,11761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  36 }, {   0,14440 }, {   0,  39 }, {   0,14438 }, {   0,  40 },
+ {   0,14436 }, {   0,  34 }, {   0,14434 }, {   0,  33 }, {   0,14432 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14428 }, {  13,   0 },
+ {   0,  50 }, {   0,14425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11742 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,14406 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
-
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
+
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
-
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
  {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
-
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
-
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
-
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11484 }, {   1,-258 },
-
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14148 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
  {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
  {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+
  {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
  {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
  {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
  {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
  {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
-
  {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
  {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
  {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
  {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
  {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
  {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
-
  { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
  { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
  { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
-
  { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
  { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
  { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
-
  { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
  { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
-
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11226 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,13890 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
-
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10968 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13632 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
-
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
-
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
-
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
-
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
-
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10710 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,13374 }, {   1,-1324 }, {   2,-1324 },
+
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
  {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
  {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
-
  {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
  {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
  {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
  {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
-
  {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
  {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
  {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
  {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
+
  { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
  { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
  { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
  { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
  {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
-
  { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
  { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
  { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
  { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
  { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
+
  { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
  { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
  { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
  { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
  { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
-
  { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
  { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
  { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
  { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
  { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
+
  { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
  { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
  { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
  { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
  { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
-
  { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
  { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
  { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10452 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
+ {   0,13116 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10393 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,13057 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
-
  {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
  {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+
  {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
  {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
  {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
-
  {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
  {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
-
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
  { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
  { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
-
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
-
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10135 }, {   1,-258 }, {   2,-258 },
-
+ { 256,   0 }, {   0,   0 }, {   0,12799 }, {   1,-258 }, {   2,-258 },
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
  {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
  {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
  {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+
  {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
  {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
  {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
  {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
  {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
-
  {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
  {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
  {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
  {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
  {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+
  {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
  {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
  {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
  {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
  {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
-
  { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
  { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
  { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
  { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
  { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+
  { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
  { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
  { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
  { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
  { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
-
  { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
  { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
  { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
  { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
  { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+
  { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
  { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
  { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
  { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
  { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
-
  { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
  { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
  { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
  { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
  { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+
  { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
  { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
  { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
-
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9877 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
- {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
+ {   0,12541 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
+ {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
+
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
+ {  30,-2157 }, {  31,-2157 }, {  32,3487 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
  {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
  {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
  {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
  {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
+
  {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
  {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
  {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
  {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
  {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
  { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
  { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
  { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
  { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
+
  { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
  { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
  { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
  { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
  { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
-
  { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
  { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
  { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
  { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
  { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
+
  { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
  { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
  { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
  { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
  { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
-
  { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
  { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
  { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
  { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
  { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
+
  { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
  { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
  { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
  { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
  { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
-
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9619 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12283 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
+
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
  {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
  {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
  {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
  {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
  {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
  {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
  {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
+
  {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
  {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
  {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
  {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
  {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
-
  {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+ { 107,-2415 }, { 108,3289 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
  { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
  { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
  { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
-
  { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
  { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
  { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
  { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
  { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
+
  { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
  { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
  { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
  { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
  { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
-
  { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
  { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
  { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
  { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
  { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
+
  { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
  { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
  { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
  { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
  { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
-
  { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9361 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,12025 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
  {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
  {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
-
  {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
  {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
+
  {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
  {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
  {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
  {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
  {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
-
  {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
  {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
+
+ { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3289 },
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
  { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
  { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
-
  { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
  { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
  { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
  { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
  { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
+
  { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
  { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
  { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
  { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
  { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
-
  { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
  { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
  { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
  { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
  { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
+
  { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
  { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
  { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
  { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
  { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
-
  { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
  { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9103 },
+
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,11767 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
  {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
-
  {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
  {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
  {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
+
  {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
  {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
  {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
  {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
  {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
-
  {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
  {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
  {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
  {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
+
  {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
-
+ { 116,-2931 }, { 117,3289 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
  { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
  { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
  { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
+
  { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
  { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
  { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
  { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
  { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
-
  { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
  { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
  { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
  { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
  { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
+
  { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
  { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
  { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
  { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
  { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
-
  { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
  { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
  { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
  { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
+
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8845 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,11509 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
-
  {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
  {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
  {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
  {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
  {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
  {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
  {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
-
  {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
  {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
  {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
  {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
  {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
+
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
+ {  98,-3189 }, {  99,-3189 }, { 100,3289 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
-
  { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
  { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
  {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
  { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
  { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
+
  { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
  { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
  { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
  { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
  { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
-
  { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
  { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
  { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
  { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
  { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
+
  { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
  { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
  { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
  { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
  { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
-
  { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
  { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
  { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
  { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
  { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
+
  { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8587 }, {   0,  37 }, {   0,8585 }, {   0,   0 }, {   0,8583 },
-
- {   0,   0 }, {   0,8581 }, {   0,   0 }, {   0,8579 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8575 }, {  13,3229 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
+ {   0,11251 }, {   0,  38 }, {   0,11249 }, {   0,   0 }, {   0,11247 },
+ {   0,   0 }, {   0,11245 }, {   0,   0 }, {   0,11243 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,11239 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
- {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3242 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
+ {   0,   0 }, {   0,   0 }, {  32,3289 }, {  33, 917 }, {   0,   0 },
+ {  35, 919 }, {   0,   0 }, {   0,   0 }, {  38, 921 }, {   0,   0 },
+ {   0,   0 }, {  33,3414 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47, 925 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62, 927 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3291 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,1022 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
- {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3244 },
- {   0,   0 }, {   0,8451 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
+ {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
+
+ {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,2309 },
+ {   0,   0 }, {   0,11115 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8193 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10857 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7935 }, {   1,   0 }, {   2,   0 },
-
+ { 256,-258 }, {   0,  10 }, {   0,10599 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
  {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
-
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
-
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
  {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
-
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
-
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,10342 },
+ {   0,   0 }, {   0,10340 }, {   0,   0 }, {   0,10338 }, {   0,   5 },
+ {   0,10336 }, {   0,  30 }, {   0,10334 }, {   0,  21 }, {   0,10332 },
+ {   0,  28 }, {   0,10330 }, {   0,  31 }, {   0,10328 }, {   0,  22 },
+ {   0,10326 }, {   0,  19 }, {   0,10324 }, {   0,   0 }, {   0,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7678 },
- {   0,   0 }, {   0,7676 }, {   0,   0 }, {   0,7674 }, {   0,   5 },
- {   0,7672 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  42,2773 }, {  45,2773 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  62,2777 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3305,1282 +3337,2207 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,10229 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2347 }, {   0,   0 }, { 123,2348 },
- {   0,   0 }, { 123,2350 }, {   0,   4 }, {   0,7549 }, {   1,2350 },
- {   2,2350 }, {   3,2350 }, {   4,2350 }, {   5,2350 }, {   6,2350 },
- {   7,2350 }, {   8,2350 }, {   9,2350 }, {  10,2227 }, {  11,2350 },
- {  12,2350 }, {  13,2227 }, {  14,2350 }, {  15,2350 }, {  16,2350 },
+ {   0,   0 }, {   0,   0 }, { 123,2386 }, {   0,   0 }, { 123,2769 },
+ {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,10213 }, {   1,2769 },
+ {   2,2769 }, {   3,2769 }, {   4,2769 }, {   5,2769 }, {   6,2769 },
+ {   7,2769 }, {   8,2769 }, {   9,2769 }, {  10,2646 }, {  11,2769 },
+ {  12,2769 }, {  13,2646 }, {  14,2769 }, {  15,2769 }, {  16,2769 },
+ {  17,2769 }, {  18,2769 }, {  19,2769 }, {  20,2769 }, {  21,2769 },
+ {  22,2769 }, {  23,2769 }, {  24,2769 }, {  25,2769 }, {  26,2769 },
+ {  27,2769 }, {  28,2769 }, {  29,2769 }, {  30,2769 }, {  31,2769 },
+ {  32,2769 }, {  33,2769 }, {  34,2769 }, {  35,2769 }, {  36,2769 },
+ {  37,2769 }, {  38,2769 }, {  39,2769 }, {  40,2769 }, {  41,2769 },
 
- {  17,2350 }, {  18,2350 }, {  19,2350 }, {  20,2350 }, {  21,2350 },
- {  22,2350 }, {  23,2350 }, {  24,2350 }, {  25,2350 }, {  26,2350 },
- {  27,2350 }, {  28,2350 }, {  29,2350 }, {  30,2350 }, {  31,2350 },
- {  32,2350 }, {  33,2350 }, {  34,2350 }, {  35,2350 }, {  36,2350 },
- {  37,2350 }, {  38,2350 }, {  39,2350 }, {  40,2350 }, {  41,2350 },
- {  42,2350 }, {  43,2350 }, {  44,2350 }, {  45,2350 }, {  46,2350 },
- {  47,2350 }, {  48,2350 }, {  49,2350 }, {  50,2350 }, {  51,2350 },
- {  52,2350 }, {  53,2350 }, {  54,2350 }, {  55,2350 }, {  56,2350 },
- {  57,2350 }, {  58,2350 }, {  59,2350 }, {  60,2350 }, {  61,2350 },
- {  62,2350 }, {  63,2350 }, {  64,2350 }, {  65,2350 }, {  66,2350 },
+ {  42,2769 }, {  43,2769 }, {  44,2769 }, {  45,2769 }, {  46,2769 },
+ {  47,2769 }, {  48,2769 }, {  49,2769 }, {  50,2769 }, {  51,2769 },
+ {  52,2769 }, {  53,2769 }, {  54,2769 }, {  55,2769 }, {  56,2769 },
+ {  57,2769 }, {  58,2769 }, {  59,2769 }, {  60,2769 }, {  61,2769 },
+ {  62,2769 }, {  63,2769 }, {  64,2769 }, {  65,2769 }, {  66,2769 },
+ {  67,2769 }, {  68,2769 }, {  69,2769 }, {  70,2769 }, {  71,2769 },
+ {  72,2769 }, {  73,2769 }, {  74,2769 }, {  75,2769 }, {  76,2769 },
+ {  77,2769 }, {  78,2769 }, {  79,2769 }, {  80,2769 }, {  81,2769 },
+ {  82,2769 }, {  83,2769 }, {  84,2769 }, {  85,2769 }, {  86,2769 },
+ {  87,2769 }, {  88,2769 }, {  89,2769 }, {  90,2769 }, {  91,2769 },
 
- {  67,2350 }, {  68,2350 }, {  69,2350 }, {  70,2350 }, {  71,2350 },
- {  72,2350 }, {  73,2350 }, {  74,2350 }, {  75,2350 }, {  76,2350 },
- {  77,2350 }, {  78,2350 }, {  79,2350 }, {  80,2350 }, {  81,2350 },
- {  82,2350 }, {  83,2350 }, {  84,2350 }, {  85,2350 }, {  86,2350 },
- {  87,2350 }, {  88,2350 }, {  89,2350 }, {  90,2350 }, {  91,2350 },
- { 124,2263 }, {  93,2350 }, {  94,2350 }, {  95,2350 }, {  96,2350 },
- {  97,2350 }, {  98,2350 }, {  99,2350 }, { 100,2350 }, { 101,2350 },
- { 102,2350 }, { 103,2350 }, { 104,2350 }, { 105,2350 }, { 106,2350 },
- { 107,2350 }, { 108,2350 }, { 109,2350 }, { 110,2350 }, { 111,2350 },
- { 112,2350 }, { 113,2350 }, { 114,2350 }, { 115,2350 }, { 116,2350 },
+ { 108,3336 }, {  93,2769 }, {  94,2769 }, {  95,2769 }, {  96,2769 },
+ {  97,2769 }, {  98,2769 }, {  99,2769 }, { 100,2769 }, { 101,2769 },
+ { 102,2769 }, { 103,2769 }, { 104,2769 }, { 105,2769 }, { 106,2769 },
+ { 107,2769 }, { 108,2769 }, { 109,2769 }, { 110,2769 }, { 111,2769 },
+ { 112,2769 }, { 113,2769 }, { 114,2769 }, { 115,2769 }, { 116,2769 },
+ { 117,2769 }, { 118,2769 }, { 119,2769 }, { 120,2769 }, { 121,2769 },
+ { 122,2769 }, { 123,3026 }, { 124,2769 }, { 125,2769 }, { 126,2769 },
+ { 127,2769 }, { 128,2769 }, { 129,2769 }, { 130,2769 }, { 131,2769 },
+ { 132,2769 }, { 133,2769 }, { 134,2769 }, { 135,2769 }, { 136,2769 },
+ { 137,2769 }, { 138,2769 }, { 139,2769 }, { 140,2769 }, { 141,2769 },
 
- { 117,2350 }, { 118,2350 }, { 119,2350 }, { 120,2350 }, { 121,2350 },
- { 122,2350 }, { 123,2607 }, { 124,2350 }, { 125,2350 }, { 126,2350 },
- { 127,2350 }, { 128,2350 }, { 129,2350 }, { 130,2350 }, { 131,2350 },
- { 132,2350 }, { 133,2350 }, { 134,2350 }, { 135,2350 }, { 136,2350 },
- { 137,2350 }, { 138,2350 }, { 139,2350 }, { 140,2350 }, { 141,2350 },
- { 142,2350 }, { 143,2350 }, { 144,2350 }, { 145,2350 }, { 146,2350 },
- { 147,2350 }, { 148,2350 }, { 149,2350 }, { 150,2350 }, { 151,2350 },
- { 152,2350 }, { 153,2350 }, { 154,2350 }, { 155,2350 }, { 156,2350 },
- { 157,2350 }, { 158,2350 }, { 159,2350 }, { 160,2350 }, { 161,2350 },
- { 162,2350 }, { 163,2350 }, { 164,2350 }, { 165,2350 }, { 166,2350 },
+ { 142,2769 }, { 143,2769 }, { 144,2769 }, { 145,2769 }, { 146,2769 },
+ { 147,2769 }, { 148,2769 }, { 149,2769 }, { 150,2769 }, { 151,2769 },
+ { 152,2769 }, { 153,2769 }, { 154,2769 }, { 155,2769 }, { 156,2769 },
+ { 157,2769 }, { 158,2769 }, { 159,2769 }, { 160,2769 }, { 161,2769 },
+ { 162,2769 }, { 163,2769 }, { 164,2769 }, { 165,2769 }, { 166,2769 },
+ { 167,2769 }, { 168,2769 }, { 169,2769 }, { 170,2769 }, { 171,2769 },
+ { 172,2769 }, { 173,2769 }, { 174,2769 }, { 175,2769 }, { 176,2769 },
+ { 177,2769 }, { 178,2769 }, { 179,2769 }, { 180,2769 }, { 181,2769 },
+ { 182,2769 }, { 183,2769 }, { 184,2769 }, { 185,2769 }, { 186,2769 },
+ { 187,2769 }, { 188,2769 }, { 189,2769 }, { 190,2769 }, { 191,2769 },
 
- { 167,2350 }, { 168,2350 }, { 169,2350 }, { 170,2350 }, { 171,2350 },
- { 172,2350 }, { 173,2350 }, { 174,2350 }, { 175,2350 }, { 176,2350 },
- { 177,2350 }, { 178,2350 }, { 179,2350 }, { 180,2350 }, { 181,2350 },
- { 182,2350 }, { 183,2350 }, { 184,2350 }, { 185,2350 }, { 186,2350 },
- { 187,2350 }, { 188,2350 }, { 189,2350 }, { 190,2350 }, { 191,2350 },
- { 192,2350 }, { 193,2350 }, { 194,2350 }, { 195,2350 }, { 196,2350 },
- { 197,2350 }, { 198,2350 }, { 199,2350 }, { 200,2350 }, { 201,2350 },
- { 202,2350 }, { 203,2350 }, { 204,2350 }, { 205,2350 }, { 206,2350 },
- { 207,2350 }, { 208,2350 }, { 209,2350 }, { 210,2350 }, { 211,2350 },
- { 212,2350 }, { 213,2350 }, { 214,2350 }, { 215,2350 }, { 216,2350 },
+ { 192,2769 }, { 193,2769 }, { 194,2769 }, { 195,2769 }, { 196,2769 },
+ { 197,2769 }, { 198,2769 }, { 199,2769 }, { 200,2769 }, { 201,2769 },
+ { 202,2769 }, { 203,2769 }, { 204,2769 }, { 205,2769 }, { 206,2769 },
+ { 207,2769 }, { 208,2769 }, { 209,2769 }, { 210,2769 }, { 211,2769 },
+ { 212,2769 }, { 213,2769 }, { 214,2769 }, { 215,2769 }, { 216,2769 },
+ { 217,2769 }, { 218,2769 }, { 219,2769 }, { 220,2769 }, { 221,2769 },
+ { 222,2769 }, { 223,2769 }, { 224,2769 }, { 225,2769 }, { 226,2769 },
+ { 227,2769 }, { 228,2769 }, { 229,2769 }, { 230,2769 }, { 231,2769 },
+ { 232,2769 }, { 233,2769 }, { 234,2769 }, { 235,2769 }, { 236,2769 },
+ { 237,2769 }, { 238,2769 }, { 239,2769 }, { 240,2769 }, { 241,2769 },
 
- { 217,2350 }, { 218,2350 }, { 219,2350 }, { 220,2350 }, { 221,2350 },
- { 222,2350 }, { 223,2350 }, { 224,2350 }, { 225,2350 }, { 226,2350 },
- { 227,2350 }, { 228,2350 }, { 229,2350 }, { 230,2350 }, { 231,2350 },
- { 232,2350 }, { 233,2350 }, { 234,2350 }, { 235,2350 }, { 236,2350 },
- { 237,2350 }, { 238,2350 }, { 239,2350 }, { 240,2350 }, { 241,2350 },
- { 242,2350 }, { 243,2350 }, { 244,2350 }, { 245,2350 }, { 246,2350 },
- { 247,2350 }, { 248,2350 }, { 249,2350 }, { 250,2350 }, { 251,2350 },
- { 252,2350 }, { 253,2350 }, { 254,2350 }, { 255,2350 }, {   0,  38 },
- {   0,7292 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 242,2769 }, { 243,2769 }, { 244,2769 }, { 245,2769 }, { 246,2769 },
+ { 247,2769 }, { 248,2769 }, { 249,2769 }, { 250,2769 }, { 251,2769 },
+ { 252,2769 }, { 253,2769 }, { 254,2769 }, { 255,2769 }, {   0,  39 },
+ {   0,9956 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
-
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
  {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
  {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
  {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
  {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
+
  {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
  {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
  {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
  {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
  {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
-
  {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
  {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
  {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
  {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
  {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
+
  {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
  {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
  {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
  { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
  { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
-
  { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
  { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
  { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
  { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
  { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
+
  { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
  { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
  { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
  { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
  { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
-
  { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
  { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
  { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
  { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
  { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
+
  { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
  { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
  { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
  { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
  { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
-
  { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
  { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
  { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
  { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
  { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
+
  { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7034 }, {   1,-4192 },
-
+ { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,9698 }, {   1,-4192 },
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
  {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
  {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
  {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
+
  {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
  {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
  {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
  {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
  {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
-
  {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
  {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
  {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
  {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
  {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
+
  {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
  {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
  {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
  {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
  {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
-
  { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
  { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
  { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
  { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
  { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
+
  { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
  { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
  { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
  { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
  { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
-
  { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
  { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
  { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
  { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
  { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
+
  { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
  { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
  { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
  { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
  { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
-
  { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
  { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
  { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
  { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
  { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
+
  { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
  { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
  { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
  { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
-
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6776 }, {   0,  29 }, {   0,6774 }, {   0,  20 },
- {   0,6772 }, {   0,  27 }, {   0,6770 }, {   0,  30 }, {   0,6768 },
- {   9,1456 }, {  10,1456 }, {   0,  21 }, {   0,6764 }, {  13,1456 },
- {   0,  18 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,9440 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1456 }, {   0,   0 },
+ {   9,1875 }, {  10,1875 }, {   0,   0 }, {   0,   0 }, {  13,1875 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1456 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1466 }, {  45,1461 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1875 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1875 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1469 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1456 }, { 126,1456 }, {   0,  49 }, {   0,6648 },
+ {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  50 }, {   0,9312 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
-
  {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
  {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
  {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
  {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
  {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
+
  {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
  {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
  {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
  {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
  {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
-
  {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
  {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
  {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
  {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
  {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
+
  {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
  {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
  { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
  { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
  { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
-
  { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
  { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
  { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
  { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
  { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
+
  { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
  { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
  { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
  { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
  { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
-
  { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
  { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
  { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
  { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
  { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
+
  { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
  { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
  { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
  { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
  { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
-
  { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
  { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
  { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
  { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
  { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
+
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6390 }, {   1,-5644 }, {   2,-5644 },
- {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
-
- {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
- {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
- {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
- {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
- {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
- {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
- {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
-
- {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
- {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
- {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
- {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
- {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
- {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
- {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
- {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
- { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
-
- { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1705 }, { 116,-5644 }, { 117,-5644 },
- { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
- {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
- { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
- { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
- { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
- { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
- { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
- { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
-
- { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
- { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
- { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
- { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
- { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
- { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
- { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
- { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
- { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
- { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
-
- { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
- { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
- { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
- { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
- { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
- { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
- { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
- { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
- { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
- { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
-
- {   0,6132 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
- {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
- {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
- {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
- {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
- {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
- {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
-
- {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
- {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
- {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
- {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
- {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
- {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
- {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
- {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
- {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
-
- { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1705 }, { 109,-5902 },
- { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
- { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
- { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
- { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
- { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
- { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
- { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
- { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
-
- { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
- { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
- { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
- { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
- { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
- { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
- { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
- { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
- { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
- { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
-
- { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
- { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
- { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
- { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
- { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
- { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
- { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
- { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
- { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
- { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
-
- { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5874 }, {   1,-6160 },
- {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
- {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
- {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
- {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
- {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
- {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
- {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
- {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
- {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
- {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
- {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
- {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
- {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
- {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
- {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
- {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1705 },
- { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
- { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
- { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
- { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
- { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
- { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
- { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
- { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
-
- { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
- { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
- { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
- { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
- { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
- { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
- { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
- { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
- { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
- { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
-
- { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
- { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
- { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
- { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
- { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
- { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
- { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
- { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
- { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
- { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
-
- { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
- { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
- { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5616 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
- {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
- {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
- {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
- {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
- {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
- {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
- {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
- {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
- {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
- {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
- {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
- {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
- {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
-
- {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
- {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1705 }, { 102,-6418 }, { 103,-6418 },
- { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
- { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
- { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
- { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
- { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
- { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
-
- { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
- { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
- { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
- { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
- { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
- { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
- { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
- { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
- { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
- { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
-
- { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
- { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
- { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
- { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
- { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
- { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
- { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
- { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
- { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
- { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
-
- { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
- { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
- { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
- { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5358 },
- {   0,  24 }, {   0,5356 }, {   0,   0 }, {   0,5354 }, {   0,   0 },
- {   0,5352 }, {   0,  26 }, {   0,5350 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,5346 }, {  13,   0 }, {   0,  30 }, {   0,5343 },
- {   0,   0 }, {   0,5341 }, {   0,  37 }, {   0,5339 }, {   0,   0 },
- {   0,5337 }, {   0,   0 }, {   0,5335 }, {   9, -15 }, {  10, -15 },
-
- {   0,   0 }, {   0,5331 }, {  13, -15 }, {   0,   0 }, {   0,5328 },
- {   0,   0 }, {  32,   0 }, {   0,   1 }, {   0,5324 }, {   0,   4 },
- {   0,5322 }, {   0,  47 }, {   0,5320 }, {   0,  41 }, {   0,5318 },
- {   0,   0 }, {   0,   0 }, {   0,5315 }, {   0,   0 }, {   0,5313 },
- {  10,   0 }, {  32, -15 }, {  33,-1431 }, {  13,   0 }, {  35,-1429 },
- {   0,  20 }, {   0,5306 }, {  38,-1427 }, {   0,  19 }, {   0,5303 },
- {  33,  -2 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2594 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,  43 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1707 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,1703 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 125,1705 }, { 126,1707 }, {   0,   0 }, { 115,  -9 },
- { 123,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1707 }, { 123,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1704 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 },
- { 108,2594 }, {   0,   0 }, { 123,2064 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,2062 }, {   0,   4 }, {   0,5199 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 },
- {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ { 256,-3745 }, {   0,  49 }, {   0,9054 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,2124 }, {  10,2124 }, {   0,   0 }, {   0,   0 },
+ {  13,2124 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  27 },
+ {   0,9026 }, {   0,   0 }, {   0,  37 }, {   0,9023 }, {  32,2124 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,8996 }, {   0,   0 }, {   0,8994 }, {   1,-5704 }, {   2,-5704 },
+ {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
+ {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
+ {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
+ {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
+
+ {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
+ {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
+ {   0,  38 }, {   0,8960 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
+ {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
+ {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
+ {  58,-5704 }, {   0,   0 }, {   0,8934 }, {  61,-5729 }, {   0,   0 },
+ {  63,-5704 }, { 124,1491 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
+ {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
+
+ {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
+ {  78,-5704 }, {  79,-5704 }, {  80,-5704 }, {  81,-5704 }, {  82,-5704 },
+ {  83,-5704 }, {  84,-5704 }, {  85,-5704 }, {  86,-5704 }, {  87,-5704 },
+ {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,2135 }, {   0,   0 },
+ {  33,1105 }, {   0,   0 }, {  95,-5704 }, { 125,2136 }, {  97,-5704 },
+ {  98,-5704 }, {  99,-5704 }, { 100,-5704 }, { 101,-5704 }, { 102,-5704 },
+ { 103,-5704 }, { 104,-5704 }, { 105,-5704 }, { 106,-5704 }, { 107,-5704 },
+ { 108,-5704 }, { 109,-5704 }, { 110,-5704 }, { 111,-5704 }, { 112,-5704 },
+ { 113,-5704 }, { 114,-5704 }, { 115,2124 }, { 116,-5704 }, { 117,-5704 },
+ { 118,-5704 }, { 119,-5704 }, { 120,-5704 }, { 121,-5704 }, { 122,-5704 },
+
+ { 125,2111 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
+ { 128,-5704 }, { 129,-5704 }, { 130,-5704 }, { 131,-5704 }, { 132,-5704 },
+ { 133,-5704 }, { 134,-5704 }, { 135,-5704 }, { 136,-5704 }, { 137,-5704 },
+ { 138,-5704 }, { 139,-5704 }, { 140,-5704 }, { 141,-5704 }, { 142,-5704 },
+ { 143,-5704 }, { 144,-5704 }, { 145,-5704 }, { 146,-5704 }, { 147,-5704 },
+ { 148,-5704 }, { 149,-5704 }, { 150,-5704 }, { 151,-5704 }, { 152,-5704 },
+ { 153,-5704 }, { 154,-5704 }, { 155,-5704 }, { 156,-5704 }, { 157,-5704 },
+ { 158,-5704 }, { 159,-5704 }, { 160,-5704 }, { 161,-5704 }, { 162,-5704 },
+ { 163,-5704 }, { 164,-5704 }, { 165,-5704 }, { 166,-5704 }, { 167,-5704 },
+ { 168,-5704 }, { 169,-5704 }, { 170,-5704 }, { 171,-5704 }, { 172,-5704 },
+
+ { 173,-5704 }, { 174,-5704 }, { 175,-5704 }, { 176,-5704 }, { 177,-5704 },
+ { 178,-5704 }, { 179,-5704 }, { 180,-5704 }, { 181,-5704 }, { 182,-5704 },
+ { 183,-5704 }, { 184,-5704 }, { 185,-5704 }, { 186,-5704 }, { 187,-5704 },
+ { 188,-5704 }, { 189,-5704 }, { 190,-5704 }, { 191,-5704 }, { 192,-5704 },
+ { 193,-5704 }, { 194,-5704 }, { 195,-5704 }, { 196,-5704 }, { 197,-5704 },
+ { 198,-5704 }, { 199,-5704 }, { 200,-5704 }, { 201,-5704 }, { 202,-5704 },
+ { 203,-5704 }, { 204,-5704 }, { 205,-5704 }, { 206,-5704 }, { 207,-5704 },
+ { 208,-5704 }, { 209,-5704 }, { 210,-5704 }, { 211,-5704 }, { 212,-5704 },
+ { 213,-5704 }, { 214,-5704 }, { 215,-5704 }, { 216,-5704 }, { 217,-5704 },
+ { 218,-5704 }, { 219,-5704 }, { 220,-5704 }, { 221,-5704 }, { 222,-5704 },
+
+ { 223,-5704 }, { 224,-5704 }, { 225,-5704 }, { 226,-5704 }, { 227,-5704 },
+ { 228,-5704 }, { 229,-5704 }, { 230,-5704 }, { 231,-5704 }, { 232,-5704 },
+ { 233,-5704 }, { 234,-5704 }, { 235,-5704 }, { 236,-5704 }, { 237,-5704 },
+ { 238,-5704 }, { 239,-5704 }, { 240,-5704 }, { 241,-5704 }, { 242,-5704 },
+ { 243,-5704 }, { 244,-5704 }, { 245,-5704 }, { 246,-5704 }, { 247,-5704 },
+ { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
+ { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
+ {   0,8736 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
+ {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
+
+ {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
+ {  20,-5962 }, {  21,-5962 }, {  22,-5962 }, {  23,-5962 }, {  24,-5962 },
+ {  25,-5962 }, {  26,-5962 }, {  27,-5962 }, {  28,-5962 }, {  29,-5962 },
+ {  30,-5962 }, {  31,-5962 }, {  32,-5987 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-5987 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-5962 }, {  46,-5987 }, {  47,-5987 }, {  48,-5962 }, {  49,-5962 },
+ {  50,-5962 }, {  51,-5962 }, {  52,-5962 }, {  53,-5962 }, {  54,-5962 },
+ {  55,-5962 }, {  56,-5962 }, {  57,-5962 }, {  58,-5962 }, {   0,   0 },
+ {   0,   0 }, {  61,-5987 }, {   0,   0 }, {  63,-5962 }, {   0,   0 },
+
+ {  65,-5962 }, {  66,-5962 }, {  67,-5962 }, {  68,-5962 }, {  69,-5962 },
+ {  70,-5962 }, {  71,-5962 }, {  72,-5962 }, {  73,-5962 }, {  74,-5962 },
+ {  75,-5962 }, {  76,-5962 }, {  77,-5962 }, {  78,-5962 }, {  79,-5962 },
+ {  80,-5962 }, {  81,-5962 }, {  82,-5962 }, {  83,-5962 }, {  84,-5962 },
+ {  85,-5962 }, {  86,-5962 }, {  87,-5962 }, {  88,-5962 }, {  89,-5962 },
+ {  90,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-5962 }, {   0,   0 }, {  97,-5962 }, {  98,-5962 }, {  99,-5962 },
+ { 100,-5962 }, { 101,-5962 }, { 102,-5962 }, { 103,-5962 }, { 104,-5962 },
+ { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,2124 }, { 109,-5962 },
+ { 110,-5962 }, { 111,-5962 }, { 112,-5962 }, { 113,-5962 }, { 114,-5962 },
+
+ { 115,-5962 }, { 116,-5962 }, { 117,-5962 }, { 118,-5962 }, { 119,-5962 },
+ { 120,-5962 }, { 121,-5962 }, { 122,-5962 }, {   0,   0 }, { 124,-5987 },
+ { 125,-5987 }, { 126,-5987 }, { 127,-5962 }, { 128,-5962 }, { 129,-5962 },
+ { 130,-5962 }, { 131,-5962 }, { 132,-5962 }, { 133,-5962 }, { 134,-5962 },
+ { 135,-5962 }, { 136,-5962 }, { 137,-5962 }, { 138,-5962 }, { 139,-5962 },
+ { 140,-5962 }, { 141,-5962 }, { 142,-5962 }, { 143,-5962 }, { 144,-5962 },
+ { 145,-5962 }, { 146,-5962 }, { 147,-5962 }, { 148,-5962 }, { 149,-5962 },
+ { 150,-5962 }, { 151,-5962 }, { 152,-5962 }, { 153,-5962 }, { 154,-5962 },
+ { 155,-5962 }, { 156,-5962 }, { 157,-5962 }, { 158,-5962 }, { 159,-5962 },
+ { 160,-5962 }, { 161,-5962 }, { 162,-5962 }, { 163,-5962 }, { 164,-5962 },
+
+ { 165,-5962 }, { 166,-5962 }, { 167,-5962 }, { 168,-5962 }, { 169,-5962 },
+ { 170,-5962 }, { 171,-5962 }, { 172,-5962 }, { 173,-5962 }, { 174,-5962 },
+ { 175,-5962 }, { 176,-5962 }, { 177,-5962 }, { 178,-5962 }, { 179,-5962 },
+ { 180,-5962 }, { 181,-5962 }, { 182,-5962 }, { 183,-5962 }, { 184,-5962 },
+ { 185,-5962 }, { 186,-5962 }, { 187,-5962 }, { 188,-5962 }, { 189,-5962 },
+ { 190,-5962 }, { 191,-5962 }, { 192,-5962 }, { 193,-5962 }, { 194,-5962 },
+ { 195,-5962 }, { 196,-5962 }, { 197,-5962 }, { 198,-5962 }, { 199,-5962 },
+ { 200,-5962 }, { 201,-5962 }, { 202,-5962 }, { 203,-5962 }, { 204,-5962 },
+ { 205,-5962 }, { 206,-5962 }, { 207,-5962 }, { 208,-5962 }, { 209,-5962 },
+ { 210,-5962 }, { 211,-5962 }, { 212,-5962 }, { 213,-5962 }, { 214,-5962 },
+
+ { 215,-5962 }, { 216,-5962 }, { 217,-5962 }, { 218,-5962 }, { 219,-5962 },
+ { 220,-5962 }, { 221,-5962 }, { 222,-5962 }, { 223,-5962 }, { 224,-5962 },
+ { 225,-5962 }, { 226,-5962 }, { 227,-5962 }, { 228,-5962 }, { 229,-5962 },
+ { 230,-5962 }, { 231,-5962 }, { 232,-5962 }, { 233,-5962 }, { 234,-5962 },
+ { 235,-5962 }, { 236,-5962 }, { 237,-5962 }, { 238,-5962 }, { 239,-5962 },
+ { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
+ { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
+ { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,8478 }, {   1,-6220 },
+ {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
+
+ {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
+ {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
+ {  17,-6220 }, {  18,-6220 }, {  19,-6220 }, {  20,-6220 }, {  21,-6220 },
+ {  22,-6220 }, {  23,-6220 }, {  24,-6220 }, {  25,-6220 }, {  26,-6220 },
+ {  27,-6220 }, {  28,-6220 }, {  29,-6220 }, {  30,-6220 }, {  31,-6220 },
+ {  32,-6245 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6220 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6245 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6220 }, {  46,-6245 },
+ {  47,-6245 }, {  48,-6220 }, {  49,-6220 }, {  50,-6220 }, {  51,-6220 },
+ {  52,-6220 }, {  53,-6220 }, {  54,-6220 }, {  55,-6220 }, {  56,-6220 },
+
+ {  57,-6220 }, {  58,-6220 }, {   0,   0 }, {   0,   0 }, {  61,-6245 },
+ {   0,   0 }, {  63,-6220 }, {   0,   0 }, {  65,-6220 }, {  66,-6220 },
+ {  67,-6220 }, {  68,-6220 }, {  69,-6220 }, {  70,-6220 }, {  71,-6220 },
+ {  72,-6220 }, {  73,-6220 }, {  74,-6220 }, {  75,-6220 }, {  76,-6220 },
+ {  77,-6220 }, {  78,-6220 }, {  79,-6220 }, {  80,-6220 }, {  81,-6220 },
+ {  82,-6220 }, {  83,-6220 }, {  84,-6220 }, {  85,-6220 }, {  86,-6220 },
+ {  87,-6220 }, {  88,-6220 }, {  89,-6220 }, {  90,-6220 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6220 }, {   0,   0 },
+ {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,2124 },
+ { 102,-6220 }, { 103,-6220 }, { 104,-6220 }, { 105,-6220 }, { 106,-6220 },
+
+ { 107,-6220 }, { 108,-6220 }, { 109,-6220 }, { 110,-6220 }, { 111,-6220 },
+ { 112,-6220 }, { 113,-6220 }, { 114,-6220 }, { 115,-6220 }, { 116,-6220 },
+ { 117,-6220 }, { 118,-6220 }, { 119,-6220 }, { 120,-6220 }, { 121,-6220 },
+ { 122,-6220 }, {   0,   0 }, { 124,-6245 }, { 125,-6245 }, { 126,-6245 },
+ { 127,-6220 }, { 128,-6220 }, { 129,-6220 }, { 130,-6220 }, { 131,-6220 },
+ { 132,-6220 }, { 133,-6220 }, { 134,-6220 }, { 135,-6220 }, { 136,-6220 },
+ { 137,-6220 }, { 138,-6220 }, { 139,-6220 }, { 140,-6220 }, { 141,-6220 },
+ { 142,-6220 }, { 143,-6220 }, { 144,-6220 }, { 145,-6220 }, { 146,-6220 },
+ { 147,-6220 }, { 148,-6220 }, { 149,-6220 }, { 150,-6220 }, { 151,-6220 },
+ { 152,-6220 }, { 153,-6220 }, { 154,-6220 }, { 155,-6220 }, { 156,-6220 },
+
+ { 157,-6220 }, { 158,-6220 }, { 159,-6220 }, { 160,-6220 }, { 161,-6220 },
+ { 162,-6220 }, { 163,-6220 }, { 164,-6220 }, { 165,-6220 }, { 166,-6220 },
+ { 167,-6220 }, { 168,-6220 }, { 169,-6220 }, { 170,-6220 }, { 171,-6220 },
+ { 172,-6220 }, { 173,-6220 }, { 174,-6220 }, { 175,-6220 }, { 176,-6220 },
+ { 177,-6220 }, { 178,-6220 }, { 179,-6220 }, { 180,-6220 }, { 181,-6220 },
+ { 182,-6220 }, { 183,-6220 }, { 184,-6220 }, { 185,-6220 }, { 186,-6220 },
+ { 187,-6220 }, { 188,-6220 }, { 189,-6220 }, { 190,-6220 }, { 191,-6220 },
+ { 192,-6220 }, { 193,-6220 }, { 194,-6220 }, { 195,-6220 }, { 196,-6220 },
+ { 197,-6220 }, { 198,-6220 }, { 199,-6220 }, { 200,-6220 }, { 201,-6220 },
+ { 202,-6220 }, { 203,-6220 }, { 204,-6220 }, { 205,-6220 }, { 206,-6220 },
+
+ { 207,-6220 }, { 208,-6220 }, { 209,-6220 }, { 210,-6220 }, { 211,-6220 },
+ { 212,-6220 }, { 213,-6220 }, { 214,-6220 }, { 215,-6220 }, { 216,-6220 },
+ { 217,-6220 }, { 218,-6220 }, { 219,-6220 }, { 220,-6220 }, { 221,-6220 },
+ { 222,-6220 }, { 223,-6220 }, { 224,-6220 }, { 225,-6220 }, { 226,-6220 },
+ { 227,-6220 }, { 228,-6220 }, { 229,-6220 }, { 230,-6220 }, { 231,-6220 },
+ { 232,-6220 }, { 233,-6220 }, { 234,-6220 }, { 235,-6220 }, { 236,-6220 },
+ { 237,-6220 }, { 238,-6220 }, { 239,-6220 }, { 240,-6220 }, { 241,-6220 },
+ { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
+ { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
+ { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
+
+ {   0,   0 }, {   0,8220 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
+ {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
+ {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
+ {  19,-6478 }, {  20,-6478 }, {  21,-6478 }, {  22,-6478 }, {  23,-6478 },
+ {  24,-6478 }, {  25,-6478 }, {  26,-6478 }, {  27,-6478 }, {  28,-6478 },
+ {  29,-6478 }, {  30,-6478 }, {  31,-6478 }, {  32,-6503 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-6478 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-6503 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-6478 }, {  46,-6503 }, {  47,-6503 }, {  48,-6478 },
+
+ {  49,-6478 }, {  50,-6478 }, {  51,-6478 }, {  52,-6478 }, {  53,-6478 },
+ {  54,-6478 }, {  55,-6478 }, {  56,-6478 }, {  57,-6478 }, {  58,-6478 },
+ {   0,   0 }, {   0,   0 }, {  61,-6503 }, {   0,   0 }, {  63,-6478 },
+ {   0,   0 }, {  65,-6478 }, {  66,-6478 }, {  67,-6478 }, {  68,-6478 },
+ {  69,-6478 }, {  70,-6478 }, {  71,-6478 }, {  72,-6478 }, {  73,-6478 },
+ {  74,-6478 }, {  75,-6478 }, {  76,-6478 }, {  77,-6478 }, {  78,-6478 },
+ {  79,-6478 }, {  80,-6478 }, {  81,-6478 }, {  82,-6478 }, {  83,-6478 },
+ {  84,-6478 }, {  85,-6478 }, {  86,-6478 }, {  87,-6478 }, {  88,-6478 },
+ {  89,-6478 }, {  90,-6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-6478 }, {   0,   0 }, {  97,-6478 }, {  98,-6478 },
+
+ {  99,-6478 }, { 100,-6478 }, { 101,2124 }, { 102,-6478 }, { 103,-6478 },
+ { 104,-6478 }, { 105,-6478 }, { 106,-6478 }, { 107,-6478 }, { 108,-6478 },
+ { 109,-6478 }, { 110,-6478 }, { 111,-6478 }, { 112,-6478 }, { 113,-6478 },
+ { 114,-6478 }, { 115,-6478 }, { 116,-6478 }, { 117,-6478 }, { 118,-6478 },
+ { 119,-6478 }, { 120,-6478 }, { 121,-6478 }, { 122,-6478 }, {   0,   0 },
+ { 124,-6503 }, { 125,-6503 }, { 126,-6503 }, { 127,-6478 }, { 128,-6478 },
+ { 129,-6478 }, { 130,-6478 }, { 131,-6478 }, { 132,-6478 }, { 133,-6478 },
+ { 134,-6478 }, { 135,-6478 }, { 136,-6478 }, { 137,-6478 }, { 138,-6478 },
+ { 139,-6478 }, { 140,-6478 }, { 141,-6478 }, { 142,-6478 }, { 143,-6478 },
+ { 144,-6478 }, { 145,-6478 }, { 146,-6478 }, { 147,-6478 }, { 148,-6478 },
+
+ { 149,-6478 }, { 150,-6478 }, { 151,-6478 }, { 152,-6478 }, { 153,-6478 },
+ { 154,-6478 }, { 155,-6478 }, { 156,-6478 }, { 157,-6478 }, { 158,-6478 },
+ { 159,-6478 }, { 160,-6478 }, { 161,-6478 }, { 162,-6478 }, { 163,-6478 },
+ { 164,-6478 }, { 165,-6478 }, { 166,-6478 }, { 167,-6478 }, { 168,-6478 },
+ { 169,-6478 }, { 170,-6478 }, { 171,-6478 }, { 172,-6478 }, { 173,-6478 },
+ { 174,-6478 }, { 175,-6478 }, { 176,-6478 }, { 177,-6478 }, { 178,-6478 },
+ { 179,-6478 }, { 180,-6478 }, { 181,-6478 }, { 182,-6478 }, { 183,-6478 },
+ { 184,-6478 }, { 185,-6478 }, { 186,-6478 }, { 187,-6478 }, { 188,-6478 },
+ { 189,-6478 }, { 190,-6478 }, { 191,-6478 }, { 192,-6478 }, { 193,-6478 },
+ { 194,-6478 }, { 195,-6478 }, { 196,-6478 }, { 197,-6478 }, { 198,-6478 },
+
+ { 199,-6478 }, { 200,-6478 }, { 201,-6478 }, { 202,-6478 }, { 203,-6478 },
+ { 204,-6478 }, { 205,-6478 }, { 206,-6478 }, { 207,-6478 }, { 208,-6478 },
+ { 209,-6478 }, { 210,-6478 }, { 211,-6478 }, { 212,-6478 }, { 213,-6478 },
+ { 214,-6478 }, { 215,-6478 }, { 216,-6478 }, { 217,-6478 }, { 218,-6478 },
+ { 219,-6478 }, { 220,-6478 }, { 221,-6478 }, { 222,-6478 }, { 223,-6478 },
+ { 224,-6478 }, { 225,-6478 }, { 226,-6478 }, { 227,-6478 }, { 228,-6478 },
+ { 229,-6478 }, { 230,-6478 }, { 231,-6478 }, { 232,-6478 }, { 233,-6478 },
+ { 234,-6478 }, { 235,-6478 }, { 236,-6478 }, { 237,-6478 }, { 238,-6478 },
+ { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
+ { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
+
+ { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,7962 },
+ {   0,  25 }, {   0,7960 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,7956 }, {   0,  31 }, {   0,7954 }, {   9,   0 }, {  10,   0 },
+ {   9,2122 }, {  10,2122 }, {  13,   0 }, {   0,   0 }, {  13,2122 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,   0 },
+ {  13,  -8 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,2122 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,  -8 },
+
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,   0 }, {   0,   0 },
+ {  38,-2376 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-2374 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,-2267 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 483 }, { 126,1056 }, { 123,2762 }, {   0,   0 },
+ { 123,1065 }, {   0,   0 }, {   0,7829 }, {   1,2119 }, {   2,2119 },
+ {   3,2119 }, {   4,2119 }, {   5,2119 }, {   6,2119 }, {   7,2119 },
+
+ {   8,2119 }, {   9,2119 }, {  10,2119 }, {  11,2119 }, {  12,2119 },
+ {  13,2119 }, {  14,2119 }, {  15,2119 }, {  16,2119 }, {  17,2119 },
+ {  18,2119 }, {  19,2119 }, {  20,2119 }, {  21,2119 }, {  22,2119 },
+ {  23,2119 }, {  24,2119 }, {  25,2119 }, {  26,2119 }, {  27,2119 },
+ {  28,2119 }, {  29,2119 }, {  30,2119 }, {  31,2119 }, {  32,2119 },
+ {  33,2119 }, {  34,2119 }, {  35,2119 }, {  36,2119 }, {  37,2119 },
+ {  38,2119 }, {  39,2119 }, {  40,2119 }, {  41,2119 }, {  42,2119 },
+ {  43,2119 }, {  44,2119 }, {  45,2377 }, {  46,2119 }, {  47,2119 },
+ {  48,2119 }, {  49,2119 }, {  50,2119 }, {  51,2119 }, {  52,2119 },
+ {  53,2119 }, {  54,2119 }, {  55,2119 }, {  56,2119 }, {  57,2119 },
 
+ {  58,2119 }, {  59,2119 }, {  60,2119 }, {  61,2119 }, {  62,2119 },
+ {  63,2119 }, {  64,2119 }, {  65,2119 }, {  66,2119 }, {  67,2119 },
+ {  68,2119 }, {  69,2119 }, {  70,2119 }, {  71,2119 }, {  72,2119 },
+ {  73,2119 }, {  74,2119 }, {  75,2119 }, {  76,2119 }, {  77,2119 },
+ {  78,2119 }, {  79,2119 }, {  80,2119 }, {  81,2119 }, {  82,2119 },
+ {  83,2119 }, {  84,2119 }, {  85,2119 }, {  86,2119 }, {  87,2119 },
+ {  88,2119 }, {  89,2119 }, {  90,2119 }, {  91,2119 }, {  92,2119 },
+ {  93,2119 }, {  94,2119 }, {  95,2119 }, {  96,2119 }, {  97,2119 },
+ {  98,2119 }, {  99,2119 }, { 100,2119 }, { 101,2119 }, { 102,2119 },
+ { 103,2119 }, { 104,2119 }, { 105,2119 }, { 106,2119 }, { 107,2119 },
+
+ { 108,2119 }, { 109,2119 }, { 110,2119 }, { 111,2119 }, { 112,2119 },
+ { 113,2119 }, { 114,2119 }, { 115,2119 }, { 116,2119 }, { 117,2119 },
+ { 118,2119 }, { 119,2119 }, { 120,2119 }, { 121,2119 }, { 122,2119 },
+ { 123,2119 }, { 124,2119 }, { 125,2119 }, { 126,2119 }, { 127,2119 },
+ { 128,2119 }, { 129,2119 }, { 130,2119 }, { 131,2119 }, { 132,2119 },
+ { 133,2119 }, { 134,2119 }, { 135,2119 }, { 136,2119 }, { 137,2119 },
+ { 138,2119 }, { 139,2119 }, { 140,2119 }, { 141,2119 }, { 142,2119 },
+ { 143,2119 }, { 144,2119 }, { 145,2119 }, { 146,2119 }, { 147,2119 },
+ { 148,2119 }, { 149,2119 }, { 150,2119 }, { 151,2119 }, { 152,2119 },
+ { 153,2119 }, { 154,2119 }, { 155,2119 }, { 156,2119 }, { 157,2119 },
+
+ { 158,2119 }, { 159,2119 }, { 160,2119 }, { 161,2119 }, { 162,2119 },
+ { 163,2119 }, { 164,2119 }, { 165,2119 }, { 166,2119 }, { 167,2119 },
+ { 168,2119 }, { 169,2119 }, { 170,2119 }, { 171,2119 }, { 172,2119 },
+ { 173,2119 }, { 174,2119 }, { 175,2119 }, { 176,2119 }, { 177,2119 },
+ { 178,2119 }, { 179,2119 }, { 180,2119 }, { 181,2119 }, { 182,2119 },
+ { 183,2119 }, { 184,2119 }, { 185,2119 }, { 186,2119 }, { 187,2119 },
+ { 188,2119 }, { 189,2119 }, { 190,2119 }, { 191,2119 }, { 192,2119 },
+ { 193,2119 }, { 194,2119 }, { 195,2119 }, { 196,2119 }, { 197,2119 },
+ { 198,2119 }, { 199,2119 }, { 200,2119 }, { 201,2119 }, { 202,2119 },
+ { 203,2119 }, { 204,2119 }, { 205,2119 }, { 206,2119 }, { 207,2119 },
+
+ { 208,2119 }, { 209,2119 }, { 210,2119 }, { 211,2119 }, { 212,2119 },
+ { 213,2119 }, { 214,2119 }, { 215,2119 }, { 216,2119 }, { 217,2119 },
+ { 218,2119 }, { 219,2119 }, { 220,2119 }, { 221,2119 }, { 222,2119 },
+ { 223,2119 }, { 224,2119 }, { 225,2119 }, { 226,2119 }, { 227,2119 },
+ { 228,2119 }, { 229,2119 }, { 230,2119 }, { 231,2119 }, { 232,2119 },
+ { 233,2119 }, { 234,2119 }, { 235,2119 }, { 236,2119 }, { 237,2119 },
+ { 238,2119 }, { 239,2119 }, { 240,2119 }, { 241,2119 }, { 242,2119 },
+ { 243,2119 }, { 244,2119 }, { 245,2119 }, { 246,2119 }, { 247,2119 },
+ { 248,2119 }, { 249,2119 }, { 250,2119 }, { 251,2119 }, { 252,2119 },
+ { 253,2119 }, { 254,2119 }, { 255,2119 }, { 256,2119 }, {   0,   0 },
+
+ {   0,7571 }, {   0,   1 }, {   0,7569 }, {   0,   4 }, {   0,7567 },
+ {   0,  48 }, {   0,7565 }, {   0,  42 }, {   0,7563 }, {   0,   0 },
+ {   0,7561 }, {   0,  21 }, {   0,7559 }, {   0,   0 }, {  10,   0 },
+ {   0,  20 }, {   0,7555 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2633 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,7477 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2635 }, {   0,   0 },
+ { 123,2635 }, {   0,   4 }, {   0,7444 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
+ {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2551 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+
+ {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,7187 },
+ {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
+ {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 },
+ {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 },
+
+ {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
+ {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
+ {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
+ {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
+ {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
+ {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
+ {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
+ {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
+ {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
+ {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
+
+ {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
+ {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
+ {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
+ {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
+ {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
+ {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
+ {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
+ { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
+ { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
+ { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
+
+ { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
+ { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
+ { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
+ { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
+ { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
+ { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
+ { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
+ { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
+ { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
+ { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
+
+ { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
+ { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
+ { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
+ { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
+ { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
+ { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
+ { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
+ { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
+ { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
+ { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
+
+ { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
+ { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
+ { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
+ { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
+ { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
+ { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
+ { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
+ { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
+ {   0,   0 }, {   0,6930 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,6904 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6893 }, {   0,  17 },
+ {   0,6891 }, {   0,  27 }, {   0,6889 }, {   0,  18 }, {   0,6887 },
+ {   0,  37 }, {   0,6885 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,6870 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
+ {   4,-7828 }, {   5,-7828 }, {   6,-7828 }, {   7,-7828 }, {   8,-7828 },
+ {   9,-7853 }, {  10,-7853 }, {  11,-7828 }, {  12,-7828 }, {  13,-7853 },
+ {  14,-7828 }, {  15,-7828 }, {  16,-7828 }, {  17,-7828 }, {  18,-7828 },
+ {  19,-7828 }, {  20,-7828 }, {  21,-7828 }, {  22,-7828 }, {  23,-7828 },
+ {  24,-7828 }, {  25,-7828 }, {  26,-7828 }, {  27,-7828 }, {  28,-7828 },
+ {  29,-7828 }, {  30,-7828 }, {  31,-7828 }, {  32,-7853 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-7828 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-7853 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-7828 }, {  46,-7853 }, {  47,-7853 }, {  48,-7828 },
+
+ {  49,-7828 }, {  50,-7828 }, {  51,-7828 }, {  52,-7828 }, {  53,-7828 },
+ {  54,-7828 }, {  55,-7828 }, {  56,-7828 }, {  57,-7828 }, {  58,-7828 },
+ {   0,   0 }, {   0,   0 }, {  61,-7853 }, {   0,   0 }, {  63,-7828 },
+ { 124,-633 }, {  65,-7828 }, {  66,-7828 }, {  67,-7828 }, {  68,-7828 },
+ {  69,-7828 }, {  70,-7828 }, {  71,-7828 }, {  72,-7828 }, {  73,-7828 },
+ {  74,-7828 }, {  75,-7828 }, {  76,-7828 }, {  77,-7828 }, {  78,-7828 },
+ {  79,-7828 }, {  80,-7828 }, {  81,-7828 }, {  82,-7828 }, {  83,-7828 },
+ {  84,-7828 }, {  85,-7828 }, {  86,-7828 }, {  87,-7828 }, {  88,-7828 },
+ {  89,-7828 }, {  90,-7828 }, { 125,-573 }, { 115,1974 }, {   0,   0 },
+ {   0,   0 }, {  95,-7828 }, {   0,   0 }, {  97,-7828 }, {  98,-7828 },
+
+ {  99,-7828 }, { 100,-7828 }, { 101,1961 }, { 102,-7828 }, { 103,-7828 },
+ { 104,-7828 }, { 105,-7828 }, { 106,-7828 }, { 107,-7828 }, { 108,-7828 },
+ { 109,-7828 }, { 110,-7828 }, { 111,-7828 }, { 112,-7828 }, { 113,-7828 },
+ { 114,-7828 }, { 115,-7828 }, { 116,-7828 }, { 117,-7828 }, { 118,-7828 },
+ { 119,-7828 }, { 120,-7828 }, { 121,-7828 }, { 122,-7828 }, {   0,   0 },
+ { 124,-7853 }, { 125,-7853 }, { 126,-7853 }, { 127,-7828 }, { 128,-7828 },
+ { 129,-7828 }, { 130,-7828 }, { 131,-7828 }, { 132,-7828 }, { 133,-7828 },
+ { 134,-7828 }, { 135,-7828 }, { 136,-7828 }, { 137,-7828 }, { 138,-7828 },
+ { 139,-7828 }, { 140,-7828 }, { 141,-7828 }, { 142,-7828 }, { 143,-7828 },
+ { 144,-7828 }, { 145,-7828 }, { 146,-7828 }, { 147,-7828 }, { 148,-7828 },
+
+ { 149,-7828 }, { 150,-7828 }, { 151,-7828 }, { 152,-7828 }, { 153,-7828 },
+ { 154,-7828 }, { 155,-7828 }, { 156,-7828 }, { 157,-7828 }, { 158,-7828 },
+ { 159,-7828 }, { 160,-7828 }, { 161,-7828 }, { 162,-7828 }, { 163,-7828 },
+ { 164,-7828 }, { 165,-7828 }, { 166,-7828 }, { 167,-7828 }, { 168,-7828 },
+ { 169,-7828 }, { 170,-7828 }, { 171,-7828 }, { 172,-7828 }, { 173,-7828 },
+ { 174,-7828 }, { 175,-7828 }, { 176,-7828 }, { 177,-7828 }, { 178,-7828 },
+ { 179,-7828 }, { 180,-7828 }, { 181,-7828 }, { 182,-7828 }, { 183,-7828 },
+ { 184,-7828 }, { 185,-7828 }, { 186,-7828 }, { 187,-7828 }, { 188,-7828 },
+ { 189,-7828 }, { 190,-7828 }, { 191,-7828 }, { 192,-7828 }, { 193,-7828 },
+ { 194,-7828 }, { 195,-7828 }, { 196,-7828 }, { 197,-7828 }, { 198,-7828 },
+
+ { 199,-7828 }, { 200,-7828 }, { 201,-7828 }, { 202,-7828 }, { 203,-7828 },
+ { 204,-7828 }, { 205,-7828 }, { 206,-7828 }, { 207,-7828 }, { 208,-7828 },
+ { 209,-7828 }, { 210,-7828 }, { 211,-7828 }, { 212,-7828 }, { 213,-7828 },
+ { 214,-7828 }, { 215,-7828 }, { 216,-7828 }, { 217,-7828 }, { 218,-7828 },
+ { 219,-7828 }, { 220,-7828 }, { 221,-7828 }, { 222,-7828 }, { 223,-7828 },
+ { 224,-7828 }, { 225,-7828 }, { 226,-7828 }, { 227,-7828 }, { 228,-7828 },
+ { 229,-7828 }, { 230,-7828 }, { 231,-7828 }, { 232,-7828 }, { 233,-7828 },
+ { 234,-7828 }, { 235,-7828 }, { 236,-7828 }, { 237,-7828 }, { 238,-7828 },
+ { 239,-7828 }, { 240,-7828 }, { 241,-7828 }, { 242,-7828 }, { 243,-7828 },
+ { 244,-7828 }, { 245,-7828 }, { 246,-7828 }, { 247,-7828 }, { 248,-7828 },
+
+ { 249,-7828 }, { 250,-7828 }, { 251,-7828 }, { 252,-7828 }, { 253,-7828 },
+ { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,6612 },
+ {   1,-8086 }, {   2,-8086 }, {   3,-8086 }, {   4,-8086 }, {   5,-8086 },
+ {   6,-8086 }, {   7,-8086 }, {   8,-8086 }, {   9,1680 }, {  10,1680 },
+ {  11,-8086 }, {  12,-8086 }, {  13,1680 }, {  14,-8086 }, {  15,-8086 },
+ {  16,-8086 }, {  17,-8086 }, {  18,-8086 }, {  19,-8086 }, {  20,-8086 },
+ {  21,-8086 }, {  22,-8086 }, {  23,-8086 }, {  24,-8086 }, {  25,-8086 },
+ {  26,-8086 }, {  27,-8086 }, {  28,-8086 }, {  29,-8086 }, {  30,-8086 },
+ {  31,-8086 }, {  32,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-8086 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  41,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8086 },
+ {  46,-8111 }, {  47,-8111 }, {  48,-8086 }, {  49,-8086 }, {  50,-8086 },
+ {  51,-8086 }, {  52,-8086 }, {  53,-8086 }, {  54,-8086 }, {  55,-8086 },
+ {  56,-8086 }, {  57,-8086 }, {  58,-8086 }, {   0,   0 }, {   0,   0 },
+ {  61,-8111 }, {   0,   0 }, {  63,-8086 }, {   0,   0 }, {  65,-8086 },
+ {  66,-8086 }, {  67,-8086 }, {  68,-8086 }, {  69,-8086 }, {  70,-8086 },
+ {  71,-8086 }, {  72,-8086 }, {  73,-8086 }, {  74,-8086 }, {  75,-8086 },
+ {  76,-8086 }, {  77,-8086 }, {  78,-8086 }, {  79,-8086 }, {  80,-8086 },
+ {  81,-8086 }, {  82,-8086 }, {  83,-8086 }, {  84,-8086 }, {  85,-8086 },
+ {  86,-8086 }, {  87,-8086 }, {  88,-8086 }, {  89,-8086 }, {  90,-8086 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8086 },
+ {   0,   0 }, {  97,-8086 }, {  98,-8086 }, {  99,-8086 }, { 100,-8086 },
+ { 101,-8086 }, { 102,-8086 }, { 103,-8086 }, { 104,-8086 }, { 105,-8086 },
+ { 106,-8086 }, { 107,-8086 }, { 108,-8086 }, { 109,-8086 }, { 110,-8086 },
+ { 111,-8086 }, { 112,-8086 }, { 113,-8086 }, { 114,-8086 }, { 115,-8086 },
+ { 116,-8086 }, { 117,-8086 }, { 118,-8086 }, { 119,-8086 }, { 120,-8086 },
+ { 121,-8086 }, { 122,-8086 }, {   0,   0 }, { 124,-8111 }, { 125,1680 },
+ { 126,1680 }, { 127,-8086 }, { 128,-8086 }, { 129,-8086 }, { 130,-8086 },
+ { 131,-8086 }, { 132,-8086 }, { 133,-8086 }, { 134,-8086 }, { 135,-8086 },
+ { 136,-8086 }, { 137,-8086 }, { 138,-8086 }, { 139,-8086 }, { 140,-8086 },
+
+ { 141,-8086 }, { 142,-8086 }, { 143,-8086 }, { 144,-8086 }, { 145,-8086 },
+ { 146,-8086 }, { 147,-8086 }, { 148,-8086 }, { 149,-8086 }, { 150,-8086 },
+ { 151,-8086 }, { 152,-8086 }, { 153,-8086 }, { 154,-8086 }, { 155,-8086 },
+ { 156,-8086 }, { 157,-8086 }, { 158,-8086 }, { 159,-8086 }, { 160,-8086 },
+ { 161,-8086 }, { 162,-8086 }, { 163,-8086 }, { 164,-8086 }, { 165,-8086 },
+ { 166,-8086 }, { 167,-8086 }, { 168,-8086 }, { 169,-8086 }, { 170,-8086 },
+ { 171,-8086 }, { 172,-8086 }, { 173,-8086 }, { 174,-8086 }, { 175,-8086 },
+ { 176,-8086 }, { 177,-8086 }, { 178,-8086 }, { 179,-8086 }, { 180,-8086 },
+ { 181,-8086 }, { 182,-8086 }, { 183,-8086 }, { 184,-8086 }, { 185,-8086 },
+ { 186,-8086 }, { 187,-8086 }, { 188,-8086 }, { 189,-8086 }, { 190,-8086 },
+
+ { 191,-8086 }, { 192,-8086 }, { 193,-8086 }, { 194,-8086 }, { 195,-8086 },
+ { 196,-8086 }, { 197,-8086 }, { 198,-8086 }, { 199,-8086 }, { 200,-8086 },
+ { 201,-8086 }, { 202,-8086 }, { 203,-8086 }, { 204,-8086 }, { 205,-8086 },
+ { 206,-8086 }, { 207,-8086 }, { 208,-8086 }, { 209,-8086 }, { 210,-8086 },
+ { 211,-8086 }, { 212,-8086 }, { 213,-8086 }, { 214,-8086 }, { 215,-8086 },
+ { 216,-8086 }, { 217,-8086 }, { 218,-8086 }, { 219,-8086 }, { 220,-8086 },
+ { 221,-8086 }, { 222,-8086 }, { 223,-8086 }, { 224,-8086 }, { 225,-8086 },
+ { 226,-8086 }, { 227,-8086 }, { 228,-8086 }, { 229,-8086 }, { 230,-8086 },
+ { 231,-8086 }, { 232,-8086 }, { 233,-8086 }, { 234,-8086 }, { 235,-8086 },
+ { 236,-8086 }, { 237,-8086 }, { 238,-8086 }, { 239,-8086 }, { 240,-8086 },
+
+ { 241,-8086 }, { 242,-8086 }, { 243,-8086 }, { 244,-8086 }, { 245,-8086 },
+ { 246,-8086 }, { 247,-8086 }, { 248,-8086 }, { 249,-8086 }, { 250,-8086 },
+ { 251,-8086 }, { 252,-8086 }, { 253,-8086 }, { 254,-8086 }, { 255,-8086 },
+ { 256,-8086 }, {   0,   0 }, {   0,6354 }, {   1,-8344 }, {   2,-8344 },
+ {   3,-8344 }, {   4,-8344 }, {   5,-8344 }, {   6,-8344 }, {   7,-8344 },
+ {   8,-8344 }, {   9,1424 }, {  10,1424 }, {  11,-8344 }, {  12,-8344 },
+ {  13,1424 }, {  14,-8344 }, {  15,-8344 }, {  16,-8344 }, {  17,-8344 },
+ {  18,-8344 }, {  19,-8344 }, {  20,-8344 }, {  21,-8344 }, {  22,-8344 },
+ {  23,-8344 }, {  24,-8344 }, {  25,-8344 }, {  26,-8344 }, {  27,-8344 },
+ {  28,-8344 }, {  29,-8344 }, {  30,-8344 }, {  31,-8344 }, {  32,1424 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8344 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1424 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-8344 }, {  46,-8369 }, {  47,-8369 },
+ {  48,-8344 }, {  49,-8344 }, {  50,-8344 }, {  51,-8344 }, {  52,-8344 },
+ {  53,-8344 }, {  54,-8344 }, {  55,-8344 }, {  56,-8344 }, {  57,-8344 },
+ {  58,-8344 }, {   0,   0 }, {   0,   0 }, {  61,-8369 }, {   0,   0 },
+ {  63,-8344 }, {   0,   0 }, {  65,-8344 }, {  66,-8344 }, {  67,-8344 },
+ {  68,-8344 }, {  69,-8344 }, {  70,-8344 }, {  71,-8344 }, {  72,-8344 },
+ {  73,-8344 }, {  74,-8344 }, {  75,-8344 }, {  76,-8344 }, {  77,-8344 },
+ {  78,-8344 }, {  79,-8344 }, {  80,-8344 }, {  81,-8344 }, {  82,-8344 },
+
+ {  83,-8344 }, {  84,-8344 }, {  85,-8344 }, {  86,-8344 }, {  87,-8344 },
+ {  88,-8344 }, {  89,-8344 }, {  90,-8344 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-8344 }, {   0,   0 }, {  97,-8344 },
+ {  98,-8344 }, {  99,-8344 }, { 100,-8344 }, { 101,-8344 }, { 102,-8344 },
+ { 103,-8344 }, { 104,-8344 }, { 105,-8344 }, { 106,-8344 }, { 107,-8344 },
+ { 108,-8344 }, { 109,-8344 }, { 110,-8344 }, { 111,-8344 }, { 112,-8344 },
+ { 113,-8344 }, { 114,-8344 }, { 115,-8344 }, { 116,-8344 }, { 117,-8344 },
+ { 118,-8344 }, { 119,-8344 }, { 120,-8344 }, { 121,-8344 }, { 122,-8344 },
+ {   0,   0 }, { 124,-8369 }, { 125,1424 }, { 126,1424 }, { 127,-8344 },
+ { 128,-8344 }, { 129,-8344 }, { 130,-8344 }, { 131,-8344 }, { 132,-8344 },
+
+ { 133,-8344 }, { 134,-8344 }, { 135,-8344 }, { 136,-8344 }, { 137,-8344 },
+ { 138,-8344 }, { 139,-8344 }, { 140,-8344 }, { 141,-8344 }, { 142,-8344 },
+ { 143,-8344 }, { 144,-8344 }, { 145,-8344 }, { 146,-8344 }, { 147,-8344 },
+ { 148,-8344 }, { 149,-8344 }, { 150,-8344 }, { 151,-8344 }, { 152,-8344 },
+ { 153,-8344 }, { 154,-8344 }, { 155,-8344 }, { 156,-8344 }, { 157,-8344 },
+ { 158,-8344 }, { 159,-8344 }, { 160,-8344 }, { 161,-8344 }, { 162,-8344 },
+ { 163,-8344 }, { 164,-8344 }, { 165,-8344 }, { 166,-8344 }, { 167,-8344 },
+ { 168,-8344 }, { 169,-8344 }, { 170,-8344 }, { 171,-8344 }, { 172,-8344 },
+ { 173,-8344 }, { 174,-8344 }, { 175,-8344 }, { 176,-8344 }, { 177,-8344 },
+ { 178,-8344 }, { 179,-8344 }, { 180,-8344 }, { 181,-8344 }, { 182,-8344 },
+
+ { 183,-8344 }, { 184,-8344 }, { 185,-8344 }, { 186,-8344 }, { 187,-8344 },
+ { 188,-8344 }, { 189,-8344 }, { 190,-8344 }, { 191,-8344 }, { 192,-8344 },
+ { 193,-8344 }, { 194,-8344 }, { 195,-8344 }, { 196,-8344 }, { 197,-8344 },
+ { 198,-8344 }, { 199,-8344 }, { 200,-8344 }, { 201,-8344 }, { 202,-8344 },
+ { 203,-8344 }, { 204,-8344 }, { 205,-8344 }, { 206,-8344 }, { 207,-8344 },
+ { 208,-8344 }, { 209,-8344 }, { 210,-8344 }, { 211,-8344 }, { 212,-8344 },
+ { 213,-8344 }, { 214,-8344 }, { 215,-8344 }, { 216,-8344 }, { 217,-8344 },
+ { 218,-8344 }, { 219,-8344 }, { 220,-8344 }, { 221,-8344 }, { 222,-8344 },
+ { 223,-8344 }, { 224,-8344 }, { 225,-8344 }, { 226,-8344 }, { 227,-8344 },
+ { 228,-8344 }, { 229,-8344 }, { 230,-8344 }, { 231,-8344 }, { 232,-8344 },
+
+ { 233,-8344 }, { 234,-8344 }, { 235,-8344 }, { 236,-8344 }, { 237,-8344 },
+ { 238,-8344 }, { 239,-8344 }, { 240,-8344 }, { 241,-8344 }, { 242,-8344 },
+ { 243,-8344 }, { 244,-8344 }, { 245,-8344 }, { 246,-8344 }, { 247,-8344 },
+ { 248,-8344 }, { 249,-8344 }, { 250,-8344 }, { 251,-8344 }, { 252,-8344 },
+ { 253,-8344 }, { 254,-8344 }, { 255,-8344 }, { 256,-8344 }, {   0,   0 },
+ {   0,6096 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
+ {   5,-8602 }, {   6,-8602 }, {   7,-8602 }, {   8,-8602 }, {   9,-8627 },
+ {  10,-8627 }, {  11,-8602 }, {  12,-8602 }, {  13,-8627 }, {  14,-8602 },
+ {  15,-8602 }, {  16,-8602 }, {  17,-8602 }, {  18,-8602 }, {  19,-8602 },
+ {  20,-8602 }, {  21,-8602 }, {  22,-8602 }, {  23,-8602 }, {  24,-8602 },
+
+ {  25,-8602 }, {  26,-8602 }, {  27,-8602 }, {  28,-8602 }, {  29,-8602 },
+ {  30,-8602 }, {  31,-8602 }, {  32,-8627 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-8627 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-8602 }, {  46,-8627 }, {  47,-8627 }, {  48,-8602 }, {  49,-8602 },
+ {  50,-8602 }, {  51,-8602 }, {  52,-8602 }, {  53,-8602 }, {  54,-8602 },
+ {  55,-8602 }, {  56,-8602 }, {  57,-8602 }, {  58,-8602 }, {   0,   0 },
+ {   0,   0 }, {  61,-8627 }, {   0,   0 }, {  63,-8602 }, {   0,   0 },
+ {  65,-8602 }, {  66,-8602 }, {  67,-8602 }, {  68,-8602 }, {  69,-8602 },
+ {  70,-8602 }, {  71,-8602 }, {  72,-8602 }, {  73,-8602 }, {  74,-8602 },
+
+ {  75,-8602 }, {  76,-8602 }, {  77,-8602 }, {  78,-8602 }, {  79,-8602 },
+ {  80,-8602 }, {  81,-8602 }, {  82,-8602 }, {  83,-8602 }, {  84,-8602 },
+ {  85,-8602 }, {  86,-8602 }, {  87,-8602 }, {  88,-8602 }, {  89,-8602 },
+ {  90,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-8602 }, {   0,   0 }, {  97,-8602 }, {  98,-8602 }, {  99,-8602 },
+ { 100,-8602 }, { 101,-8602 }, { 102,1445 }, { 103,-8602 }, { 104,-8602 },
+ { 105,-8602 }, { 106,-8602 }, { 107,-8602 }, { 108,-8602 }, { 109,-8602 },
+ { 110,-8602 }, { 111,-8602 }, { 112,-8602 }, { 113,-8602 }, { 114,-8602 },
+ { 115,-8602 }, { 116,-8602 }, { 117,-8602 }, { 118,-8602 }, { 119,-8602 },
+ { 120,-8602 }, { 121,-8602 }, { 122,-8602 }, {   0,   0 }, { 124,-8627 },
+
+ { 125,-8627 }, { 126,-8627 }, { 127,-8602 }, { 128,-8602 }, { 129,-8602 },
+ { 130,-8602 }, { 131,-8602 }, { 132,-8602 }, { 133,-8602 }, { 134,-8602 },
+ { 135,-8602 }, { 136,-8602 }, { 137,-8602 }, { 138,-8602 }, { 139,-8602 },
+ { 140,-8602 }, { 141,-8602 }, { 142,-8602 }, { 143,-8602 }, { 144,-8602 },
+ { 145,-8602 }, { 146,-8602 }, { 147,-8602 }, { 148,-8602 }, { 149,-8602 },
+ { 150,-8602 }, { 151,-8602 }, { 152,-8602 }, { 153,-8602 }, { 154,-8602 },
+ { 155,-8602 }, { 156,-8602 }, { 157,-8602 }, { 158,-8602 }, { 159,-8602 },
+ { 160,-8602 }, { 161,-8602 }, { 162,-8602 }, { 163,-8602 }, { 164,-8602 },
+ { 165,-8602 }, { 166,-8602 }, { 167,-8602 }, { 168,-8602 }, { 169,-8602 },
+ { 170,-8602 }, { 171,-8602 }, { 172,-8602 }, { 173,-8602 }, { 174,-8602 },
+
+ { 175,-8602 }, { 176,-8602 }, { 177,-8602 }, { 178,-8602 }, { 179,-8602 },
+ { 180,-8602 }, { 181,-8602 }, { 182,-8602 }, { 183,-8602 }, { 184,-8602 },
+ { 185,-8602 }, { 186,-8602 }, { 187,-8602 }, { 188,-8602 }, { 189,-8602 },
+ { 190,-8602 }, { 191,-8602 }, { 192,-8602 }, { 193,-8602 }, { 194,-8602 },
+ { 195,-8602 }, { 196,-8602 }, { 197,-8602 }, { 198,-8602 }, { 199,-8602 },
+ { 200,-8602 }, { 201,-8602 }, { 202,-8602 }, { 203,-8602 }, { 204,-8602 },
+ { 205,-8602 }, { 206,-8602 }, { 207,-8602 }, { 208,-8602 }, { 209,-8602 },
+ { 210,-8602 }, { 211,-8602 }, { 212,-8602 }, { 213,-8602 }, { 214,-8602 },
+ { 215,-8602 }, { 216,-8602 }, { 217,-8602 }, { 218,-8602 }, { 219,-8602 },
+ { 220,-8602 }, { 221,-8602 }, { 222,-8602 }, { 223,-8602 }, { 224,-8602 },
+
+ { 225,-8602 }, { 226,-8602 }, { 227,-8602 }, { 228,-8602 }, { 229,-8602 },
+ { 230,-8602 }, { 231,-8602 }, { 232,-8602 }, { 233,-8602 }, { 234,-8602 },
+ { 235,-8602 }, { 236,-8602 }, { 237,-8602 }, { 238,-8602 }, { 239,-8602 },
+ { 240,-8602 }, { 241,-8602 }, { 242,-8602 }, { 243,-8602 }, { 244,-8602 },
+ { 245,-8602 }, { 246,-8602 }, { 247,-8602 }, { 248,-8602 }, { 249,-8602 },
+ { 250,-8602 }, { 251,-8602 }, { 252,-8602 }, { 253,-8602 }, { 254,-8602 },
+ { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,5838 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
+ {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1639 }, { 126,-1066 },
+ {   0,   0 }, {   0,5710 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,5452 },
+ {   1,1059 }, {   2,1059 }, {   3,1059 }, {   4,1059 }, {   5,1059 },
+ {   6,1059 }, {   7,1059 }, {   8,1059 }, {   9,1059 }, {  10,1059 },
+ {  11,1059 }, {  12,1059 }, {  13,1059 }, {  14,1059 }, {  15,1059 },
+ {  16,1059 }, {  17,1059 }, {  18,1059 }, {  19,1059 }, {  20,1059 },
+ {  21,1059 }, {  22,1059 }, {  23,1059 }, {  24,1059 }, {  25,1059 },
+ {  26,1059 }, {  27,1059 }, {  28,1059 }, {  29,1059 }, {  30,1059 },
+
+ {  31,1059 }, {  32,1059 }, {  33,1059 }, {  34,1059 }, {  35,1059 },
+ {  36,1059 }, {  37,1059 }, {  38,1059 }, {  39,1059 }, {  40,1059 },
+ {  41,1059 }, {  42,1059 }, {  43,1059 }, {  44,1059 }, {  45,1317 },
+ {  46,1059 }, {  47,1059 }, {  48,1059 }, {  49,1059 }, {  50,1059 },
+ {  51,1059 }, {  52,1059 }, {  53,1059 }, {  54,1059 }, {  55,1059 },
+ {  56,1059 }, {  57,1059 }, {  58,1059 }, {  59,1059 }, {  60,1059 },
+ {  61,1059 }, {  62,1059 }, {  63,1059 }, {  64,1059 }, {  65,1059 },
+ {  66,1059 }, {  67,1059 }, {  68,1059 }, {  69,1059 }, {  70,1059 },
+ {  71,1059 }, {  72,1059 }, {  73,1059 }, {  74,1059 }, {  75,1059 },
+ {  76,1059 }, {  77,1059 }, {  78,1059 }, {  79,1059 }, {  80,1059 },
+
+ {  81,1059 }, {  82,1059 }, {  83,1059 }, {  84,1059 }, {  85,1059 },
+ {  86,1059 }, {  87,1059 }, {  88,1059 }, {  89,1059 }, {  90,1059 },
+ {  91,1059 }, {  92,1059 }, {  93,1059 }, {  94,1059 }, {  95,1059 },
+ {  96,1059 }, {  97,1059 }, {  98,1059 }, {  99,1059 }, { 100,1059 },
+ { 101,1059 }, { 102,1059 }, { 103,1059 }, { 104,1059 }, { 105,1059 },
+ { 106,1059 }, { 107,1059 }, { 108,1059 }, { 109,1059 }, { 110,1059 },
+ { 111,1059 }, { 112,1059 }, { 113,1059 }, { 114,1059 }, { 115,1059 },
+ { 116,1059 }, { 117,1059 }, { 118,1059 }, { 119,1059 }, { 120,1059 },
+ { 121,1059 }, { 122,1059 }, { 123,1059 }, { 124,1059 }, { 125,1059 },
+ { 126,1059 }, { 127,1059 }, { 128,1059 }, { 129,1059 }, { 130,1059 },
+
+ { 131,1059 }, { 132,1059 }, { 133,1059 }, { 134,1059 }, { 135,1059 },
+ { 136,1059 }, { 137,1059 }, { 138,1059 }, { 139,1059 }, { 140,1059 },
+ { 141,1059 }, { 142,1059 }, { 143,1059 }, { 144,1059 }, { 145,1059 },
+ { 146,1059 }, { 147,1059 }, { 148,1059 }, { 149,1059 }, { 150,1059 },
+ { 151,1059 }, { 152,1059 }, { 153,1059 }, { 154,1059 }, { 155,1059 },
+ { 156,1059 }, { 157,1059 }, { 158,1059 }, { 159,1059 }, { 160,1059 },
+ { 161,1059 }, { 162,1059 }, { 163,1059 }, { 164,1059 }, { 165,1059 },
+ { 166,1059 }, { 167,1059 }, { 168,1059 }, { 169,1059 }, { 170,1059 },
+ { 171,1059 }, { 172,1059 }, { 173,1059 }, { 174,1059 }, { 175,1059 },
+ { 176,1059 }, { 177,1059 }, { 178,1059 }, { 179,1059 }, { 180,1059 },
+
+ { 181,1059 }, { 182,1059 }, { 183,1059 }, { 184,1059 }, { 185,1059 },
+ { 186,1059 }, { 187,1059 }, { 188,1059 }, { 189,1059 }, { 190,1059 },
+ { 191,1059 }, { 192,1059 }, { 193,1059 }, { 194,1059 }, { 195,1059 },
+ { 196,1059 }, { 197,1059 }, { 198,1059 }, { 199,1059 }, { 200,1059 },
+ { 201,1059 }, { 202,1059 }, { 203,1059 }, { 204,1059 }, { 205,1059 },
+ { 206,1059 }, { 207,1059 }, { 208,1059 }, { 209,1059 }, { 210,1059 },
+ { 211,1059 }, { 212,1059 }, { 213,1059 }, { 214,1059 }, { 215,1059 },
+ { 216,1059 }, { 217,1059 }, { 218,1059 }, { 219,1059 }, { 220,1059 },
+ { 221,1059 }, { 222,1059 }, { 223,1059 }, { 224,1059 }, { 225,1059 },
+ { 226,1059 }, { 227,1059 }, { 228,1059 }, { 229,1059 }, { 230,1059 },
+
+ { 231,1059 }, { 232,1059 }, { 233,1059 }, { 234,1059 }, { 235,1059 },
+ { 236,1059 }, { 237,1059 }, { 238,1059 }, { 239,1059 }, { 240,1059 },
+ { 241,1059 }, { 242,1059 }, { 243,1059 }, { 244,1059 }, { 245,1059 },
+ { 246,1059 }, { 247,1059 }, { 248,1059 }, { 249,1059 }, { 250,1059 },
+ { 251,1059 }, { 252,1059 }, { 253,1059 }, { 254,1059 }, { 255,1059 },
+ { 256,1059 }, {   0,   0 }, {   0,5194 }, {   1, 277 }, {   2, 277 },
+ {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
+ {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
+ {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
+ {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
+
+ {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
+ {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
+ {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
+ {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
+ {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1317 },
+ {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
+ {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
+ {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
+ {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
+ {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
+
+ {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
+ {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
+ {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
+ {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
+ {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
+ {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
+ { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
+ { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
+ { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
+ { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
+
+ { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
+ { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
+ { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
+ { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
+ { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
+ { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
+ { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
+ { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
+ { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
+ { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
+
+ { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
+ { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
+ { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
+ { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
+ { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
+ { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
+ { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
+ { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
+ { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
+ { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
+
+ { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
+ { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
+ { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
+ { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
+ { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
+ { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
+ { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
+ {   0,4936 }, {   0,   1 }, {   0,4934 }, {   0,  47 }, {   0,4932 },
+ {   0,  44 }, {   0,4930 }, {   0,  29 }, {   0,4928 }, {   0,  23 },
+ {   0,4926 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,4919 }, {   0,   8 }, {   0,4917 },
+ {   0,   1 }, {   0,4915 }, {   0,  45 }, {   0,4913 }, {   0,   0 },
+ {   0,4911 }, {   0,   0 }, {   0,4909 }, {   1,-9789 }, {   2,-9789 },
+ {   3,-9789 }, {   4,-9789 }, {   5,-9789 }, {   6,-9789 }, {   7,-9789 },
+ {   8,-9789 }, {   9,  -4 }, {  10,  -4 }, {  11,-9789 }, {  12,-9789 },
+ {  13,  -4 }, {  14,-9789 }, {  15,-9789 }, {  16,-9789 }, {  17,-9789 },
+ {  18,-9789 }, {  19,-9789 }, {  20,-9789 }, {  21,-9789 }, {  22,-9789 },
+ {  23,-9789 }, {  24,-9789 }, {  25,-9789 }, {  26,-9789 }, {  27,-9789 },
+ {  28,-9789 }, {  29,-9789 }, {  30,-9789 }, {  31,-9789 }, {  32,  -4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9789 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-9789 }, {  46,-9814 }, {  47,-9814 },
+ {  48,-9789 }, {  49,-9789 }, {  50,-9789 }, {  51,-9789 }, {  52,-9789 },
+ {  53,-9789 }, {  54,-9789 }, {  55,-9789 }, {  56,-9789 }, {  57,-9789 },
+ {  58,-9789 }, {   0,   0 }, {   0,   0 }, {  61,-9814 }, {   0,   0 },
+ {  63,-9789 }, {   0,   0 }, {  65,-9789 }, {  66,-9789 }, {  67,-9789 },
+ {  68,-9789 }, {  69,-9789 }, {  70,-9789 }, {  71,-9789 }, {  72,-9789 },
+ {  73,-9789 }, {  74,-9789 }, {  75,-9789 }, {  76,-9789 }, {  77,-9789 },
+ {  78,-9789 }, {  79,-9789 }, {  80,-9789 }, {  81,-9789 }, {  82,-9789 },
+ {  83,-9789 }, {  84,-9789 }, {  85,-9789 }, {  86,-9789 }, {  87,-9789 },
+
+ {  88,-9789 }, {  89,-9789 }, {  90,-9789 }, { 101,1558 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-9789 }, { 123,  21 }, {  97,-9789 },
+ {  98,-9789 }, {  99,-9789 }, { 100,-9789 }, { 101,-9789 }, { 102,-9789 },
+ { 103,-9789 }, { 104,-9789 }, { 105,-9789 }, { 106,-9789 }, { 107,-9789 },
+ { 108,-9789 }, { 109,-9789 }, { 110,-9789 }, { 111,-9789 }, { 112,-9789 },
+ { 113,-9789 }, { 114,-9789 }, { 115,-9789 }, { 116,-9789 }, { 117,-9789 },
+ { 118,-9789 }, { 119,-9789 }, { 120,-9789 }, { 121,-9789 }, { 122,-9789 },
+ { 125,3907 }, { 124,-9814 }, { 125,  -4 }, { 126,  -4 }, { 127,-9789 },
+ { 128,-9789 }, { 129,-9789 }, { 130,-9789 }, { 131,-9789 }, { 132,-9789 },
+ { 133,-9789 }, { 134,-9789 }, { 135,-9789 }, { 136,-9789 }, { 137,-9789 },
+
+ { 138,-9789 }, { 139,-9789 }, { 140,-9789 }, { 141,-9789 }, { 142,-9789 },
+ { 143,-9789 }, { 144,-9789 }, { 145,-9789 }, { 146,-9789 }, { 147,-9789 },
+ { 148,-9789 }, { 149,-9789 }, { 150,-9789 }, { 151,-9789 }, { 152,-9789 },
+ { 153,-9789 }, { 154,-9789 }, { 155,-9789 }, { 156,-9789 }, { 157,-9789 },
+ { 158,-9789 }, { 159,-9789 }, { 160,-9789 }, { 161,-9789 }, { 162,-9789 },
+ { 163,-9789 }, { 164,-9789 }, { 165,-9789 }, { 166,-9789 }, { 167,-9789 },
+ { 168,-9789 }, { 169,-9789 }, { 170,-9789 }, { 171,-9789 }, { 172,-9789 },
+ { 173,-9789 }, { 174,-9789 }, { 175,-9789 }, { 176,-9789 }, { 177,-9789 },
+ { 178,-9789 }, { 179,-9789 }, { 180,-9789 }, { 181,-9789 }, { 182,-9789 },
+ { 183,-9789 }, { 184,-9789 }, { 185,-9789 }, { 186,-9789 }, { 187,-9789 },
+
+ { 188,-9789 }, { 189,-9789 }, { 190,-9789 }, { 191,-9789 }, { 192,-9789 },
+ { 193,-9789 }, { 194,-9789 }, { 195,-9789 }, { 196,-9789 }, { 197,-9789 },
+ { 198,-9789 }, { 199,-9789 }, { 200,-9789 }, { 201,-9789 }, { 202,-9789 },
+ { 203,-9789 }, { 204,-9789 }, { 205,-9789 }, { 206,-9789 }, { 207,-9789 },
+ { 208,-9789 }, { 209,-9789 }, { 210,-9789 }, { 211,-9789 }, { 212,-9789 },
+ { 213,-9789 }, { 214,-9789 }, { 215,-9789 }, { 216,-9789 }, { 217,-9789 },
+ { 218,-9789 }, { 219,-9789 }, { 220,-9789 }, { 221,-9789 }, { 222,-9789 },
+ { 223,-9789 }, { 224,-9789 }, { 225,-9789 }, { 226,-9789 }, { 227,-9789 },
+ { 228,-9789 }, { 229,-9789 }, { 230,-9789 }, { 231,-9789 }, { 232,-9789 },
+ { 233,-9789 }, { 234,-9789 }, { 235,-9789 }, { 236,-9789 }, { 237,-9789 },
+
+ { 238,-9789 }, { 239,-9789 }, { 240,-9789 }, { 241,-9789 }, { 242,-9789 },
+ { 243,-9789 }, { 244,-9789 }, { 245,-9789 }, { 246,-9789 }, { 247,-9789 },
+ { 248,-9789 }, { 249,-9789 }, { 250,-9789 }, { 251,-9789 }, { 252,-9789 },
+ { 253,-9789 }, { 254,-9789 }, { 255,-9789 }, { 256,-9789 }, {   0,   0 },
+ {   0,4651 }, {   1,-10047 }, {   2,-10047 }, {   3,-10047 }, {   4,-10047 },
+ {   5,-10047 }, {   6,-10047 }, {   7,-10047 }, {   8,-10047 }, {   9,-10072 },
+ {  10,-10072 }, {  11,-10047 }, {  12,-10047 }, {  13,-10072 }, {  14,-10047 },
+ {  15,-10047 }, {  16,-10047 }, {  17,-10047 }, {  18,-10047 }, {  19,-10047 },
+ {  20,-10047 }, {  21,-10047 }, {  22,-10047 }, {  23,-10047 }, {  24,-10047 },
+ {  25,-10047 }, {  26,-10047 }, {  27,-10047 }, {  28,-10047 }, {  29,-10047 },
+
+ {  30,-10047 }, {  31,-10047 }, {  32,-10072 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-10072 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-10047 }, {  46,-10072 }, {  47,-10072 }, {  48,-10047 }, {  49,-10047 },
+ {  50,-10047 }, {  51,-10047 }, {  52,-10047 }, {  53,-10047 }, {  54,-10047 },
+ {  55,-10047 }, {  56,-10047 }, {  57,-10047 }, {  58,-10047 }, {   0,   0 },
+ {   0,   0 }, {  61,-10072 }, {   0,   0 }, {  63,-10047 }, {   0,   0 },
+ {  65,-10047 }, {  66,-10047 }, {  67,-10047 }, {  68,-10047 }, {  69,-10047 },
+ {  70,-10047 }, {  71,-10047 }, {  72,-10047 }, {  73,-10047 }, {  74,-10047 },
+ {  75,-10047 }, {  76,-10047 }, {  77,-10047 }, {  78,-10047 }, {  79,-10047 },
+
+ {  80,-10047 }, {  81,-10047 }, {  82,-10047 }, {  83,-10047 }, {  84,-10047 },
+ {  85,-10047 }, {  86,-10047 }, {  87,-10047 }, {  88,-10047 }, {  89,-10047 },
+ {  90,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-10047 }, {   0,   0 }, {  97,-10047 }, {  98,-10047 }, {  99,-10047 },
+ { 100,-10047 }, { 101,-10047 }, { 102,-10047 }, { 103,-10047 }, { 104,-10047 },
+ { 105,1032 }, { 106,-10047 }, { 107,-10047 }, { 108,-10047 }, { 109,-10047 },
+ { 110,-10047 }, { 111,-10047 }, { 112,-10047 }, { 113,-10047 }, { 114,-10047 },
+ { 115,-10047 }, { 116,-10047 }, { 117,-10047 }, { 118,-10047 }, { 119,-10047 },
+ { 120,-10047 }, { 121,-10047 }, { 122,-10047 }, {   0,   0 }, { 124,-10072 },
+ { 125,-10072 }, { 126,-10072 }, { 127,-10047 }, { 128,-10047 }, { 129,-10047 },
+
+ { 130,-10047 }, { 131,-10047 }, { 132,-10047 }, { 133,-10047 }, { 134,-10047 },
+ { 135,-10047 }, { 136,-10047 }, { 137,-10047 }, { 138,-10047 }, { 139,-10047 },
+ { 140,-10047 }, { 141,-10047 }, { 142,-10047 }, { 143,-10047 }, { 144,-10047 },
+ { 145,-10047 }, { 146,-10047 }, { 147,-10047 }, { 148,-10047 }, { 149,-10047 },
+ { 150,-10047 }, { 151,-10047 }, { 152,-10047 }, { 153,-10047 }, { 154,-10047 },
+ { 155,-10047 }, { 156,-10047 }, { 157,-10047 }, { 158,-10047 }, { 159,-10047 },
+ { 160,-10047 }, { 161,-10047 }, { 162,-10047 }, { 163,-10047 }, { 164,-10047 },
+ { 165,-10047 }, { 166,-10047 }, { 167,-10047 }, { 168,-10047 }, { 169,-10047 },
+ { 170,-10047 }, { 171,-10047 }, { 172,-10047 }, { 173,-10047 }, { 174,-10047 },
+ { 175,-10047 }, { 176,-10047 }, { 177,-10047 }, { 178,-10047 }, { 179,-10047 },
+
+ { 180,-10047 }, { 181,-10047 }, { 182,-10047 }, { 183,-10047 }, { 184,-10047 },
+ { 185,-10047 }, { 186,-10047 }, { 187,-10047 }, { 188,-10047 }, { 189,-10047 },
+ { 190,-10047 }, { 191,-10047 }, { 192,-10047 }, { 193,-10047 }, { 194,-10047 },
+ { 195,-10047 }, { 196,-10047 }, { 197,-10047 }, { 198,-10047 }, { 199,-10047 },
+ { 200,-10047 }, { 201,-10047 }, { 202,-10047 }, { 203,-10047 }, { 204,-10047 },
+ { 205,-10047 }, { 206,-10047 }, { 207,-10047 }, { 208,-10047 }, { 209,-10047 },
+ { 210,-10047 }, { 211,-10047 }, { 212,-10047 }, { 213,-10047 }, { 214,-10047 },
+ { 215,-10047 }, { 216,-10047 }, { 217,-10047 }, { 218,-10047 }, { 219,-10047 },
+ { 220,-10047 }, { 221,-10047 }, { 222,-10047 }, { 223,-10047 }, { 224,-10047 },
+ { 225,-10047 }, { 226,-10047 }, { 227,-10047 }, { 228,-10047 }, { 229,-10047 },
+
+ { 230,-10047 }, { 231,-10047 }, { 232,-10047 }, { 233,-10047 }, { 234,-10047 },
+ { 235,-10047 }, { 236,-10047 }, { 237,-10047 }, { 238,-10047 }, { 239,-10047 },
+ { 240,-10047 }, { 241,-10047 }, { 242,-10047 }, { 243,-10047 }, { 244,-10047 },
+ { 245,-10047 }, { 246,-10047 }, { 247,-10047 }, { 248,-10047 }, { 249,-10047 },
+ { 250,-10047 }, { 251,-10047 }, { 252,-10047 }, { 253,-10047 }, { 254,-10047 },
+ { 255,-10047 }, { 256,-10047 }, {   0,   0 }, {   0,4393 }, {   1,   0 },
+ {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
+ {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
+ {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
+
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
  {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
+ {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,1160 }, {  46,   0 },
  {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
  {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
  {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
-
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
+
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {   0,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
+
+ { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
+ { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
+ { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
+ { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
+ { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
+ { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
+ { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
+ { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
+ { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
+
+ { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+ { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
+ { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
+ { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
+ { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
+ { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
+ { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
+ { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
+ { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
+
+ { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+ { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
+ { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
+ { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
+ { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
+ { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
+ { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
+ {   0,   0 }, {   0,4135 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
+ {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
+ {   9,1160 }, {  10,1160 }, {  11,1160 }, {  12,1160 }, {  13,1160 },
+
+ {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
+ {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
+ {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
+ {  29,1160 }, {  30,1160 }, {  31,1160 }, {  32,1160 }, {  33,1160 },
+ {  34,1160 }, {  35,1160 }, {  36,1160 }, {  37,1160 }, {  38,1160 },
+ {  39,1160 }, {  40,1160 }, {  41,1160 }, {  42,1160 }, {  43,1160 },
+ {  44,1160 }, {  45,   0 }, {  46,1160 }, {  47,1160 }, {  48,1160 },
+ {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
+ {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
+ {  59,1160 }, {  60,1160 }, {  61,1160 }, {  62,1160 }, {  63,1160 },
+
+ {  64,1160 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
+ {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
+ {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
+ {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
+ {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
+ {  89,1160 }, {  90,1160 }, {  91,1160 }, {  92,1160 }, {  93,1160 },
+ {  94,1160 }, {  95,1160 }, {  96,1160 }, {  97,1160 }, {  98,1160 },
+ {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
+ { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
+ { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
+
+ { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
+ { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, { 123,1160 },
+ { 124,1160 }, { 125,1418 }, { 126,1676 }, { 127,1160 }, { 128,1160 },
+ { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
+ { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
+ { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
+ { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
+ { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
+ { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
+ { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
+
+ { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
+ { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
+ { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
+ { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
+ { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
+ { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
+ { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
+ { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
+ { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
+ { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
+
+ { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
+ { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
+ { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
+ { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
+ { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
+ { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
+ { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
+ { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
+ { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,3877 },
+ {   1,1676 }, {   2,1676 }, {   3,1676 }, {   4,1676 }, {   5,1676 },
+
+ {   6,1676 }, {   7,1676 }, {   8,1676 }, {   0,   0 }, {   0,   0 },
+ {  11,1676 }, {  12,1676 }, {   0,   0 }, {  14,1676 }, {  15,1676 },
+ {  16,1676 }, {  17,1676 }, {  18,1676 }, {  19,1676 }, {  20,1676 },
+ {  21,1676 }, {  22,1676 }, {  23,1676 }, {  24,1676 }, {  25,1676 },
+ {  26,1676 }, {  27,1676 }, {  28,1676 }, {  29,1676 }, {  30,1676 },
+ {  31,1676 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,1676 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1676 },
+ {   0,   0 }, {   0,   0 }, {  48,1676 }, {  49,1676 }, {  50,1676 },
+ {  51,1676 }, {  52,1676 }, {  53,1676 }, {  54,1676 }, {  55,1676 },
+
+ {  56,1676 }, {  57,1676 }, {  58,1676 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  63,1676 }, {   0,   0 }, {  65,1676 },
+ {  66,1676 }, {  67,1676 }, {  68,1676 }, {  69,1676 }, {  70,1676 },
+ {  71,1676 }, {  72,1676 }, {  73,1676 }, {  74,1676 }, {  75,1676 },
+ {  76,1676 }, {  77,1676 }, {  78,1676 }, {  79,1676 }, {  80,1676 },
+ {  81,1676 }, {  82,1676 }, {  83,1676 }, {  84,1676 }, {  85,1676 },
+ {  86,1676 }, {  87,1676 }, {  88,1676 }, {  89,1676 }, {  90,1676 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1676 },
+ {   0,   0 }, {  97,1676 }, {  98,1676 }, {  99,1676 }, { 100,1676 },
+ { 101,1676 }, { 102,1676 }, { 103,1676 }, { 104,1676 }, { 105,1676 },
+
+ { 106,1676 }, { 107,1676 }, { 108,1676 }, { 109,1676 }, { 110,1676 },
+ { 111,1676 }, { 112,1676 }, { 113,1676 }, { 114,1676 }, { 115,1676 },
+ { 116,1676 }, { 117,1676 }, { 118,1676 }, { 119,1676 }, { 120,1676 },
+ { 121,1676 }, { 122,1676 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 127,1676 }, { 128,1676 }, { 129,1676 }, { 130,1676 },
+ { 131,1676 }, { 132,1676 }, { 133,1676 }, { 134,1676 }, { 135,1676 },
+ { 136,1676 }, { 137,1676 }, { 138,1676 }, { 139,1676 }, { 140,1676 },
+ { 141,1676 }, { 142,1676 }, { 143,1676 }, { 144,1676 }, { 145,1676 },
+ { 146,1676 }, { 147,1676 }, { 148,1676 }, { 149,1676 }, { 150,1676 },
+ { 151,1676 }, { 152,1676 }, { 153,1676 }, { 154,1676 }, { 155,1676 },
+
+ { 156,1676 }, { 157,1676 }, { 158,1676 }, { 159,1676 }, { 160,1676 },
+ { 161,1676 }, { 162,1676 }, { 163,1676 }, { 164,1676 }, { 165,1676 },
+ { 166,1676 }, { 167,1676 }, { 168,1676 }, { 169,1676 }, { 170,1676 },
+ { 171,1676 }, { 172,1676 }, { 173,1676 }, { 174,1676 }, { 175,1676 },
+ { 176,1676 }, { 177,1676 }, { 178,1676 }, { 179,1676 }, { 180,1676 },
+ { 181,1676 }, { 182,1676 }, { 183,1676 }, { 184,1676 }, { 185,1676 },
+ { 186,1676 }, { 187,1676 }, { 188,1676 }, { 189,1676 }, { 190,1676 },
+ { 191,1676 }, { 192,1676 }, { 193,1676 }, { 194,1676 }, { 195,1676 },
+ { 196,1676 }, { 197,1676 }, { 198,1676 }, { 199,1676 }, { 200,1676 },
+ { 201,1676 }, { 202,1676 }, { 203,1676 }, { 204,1676 }, { 205,1676 },
+
+ { 206,1676 }, { 207,1676 }, { 208,1676 }, { 209,1676 }, { 210,1676 },
+ { 211,1676 }, { 212,1676 }, { 213,1676 }, { 214,1676 }, { 215,1676 },
+ { 216,1676 }, { 217,1676 }, { 218,1676 }, { 219,1676 }, { 220,1676 },
+ { 221,1676 }, { 222,1676 }, { 223,1676 }, { 224,1676 }, { 225,1676 },
+ { 226,1676 }, { 227,1676 }, { 228,1676 }, { 229,1676 }, { 230,1676 },
+ { 231,1676 }, { 232,1676 }, { 233,1676 }, { 234,1676 }, { 235,1676 },
+ { 236,1676 }, { 237,1676 }, { 238,1676 }, { 239,1676 }, { 240,1676 },
+ { 241,1676 }, { 242,1676 }, { 243,1676 }, { 244,1676 }, { 245,1676 },
+ { 246,1676 }, { 247,1676 }, { 248,1676 }, { 249,1676 }, { 250,1676 },
+ { 251,1676 }, { 252,1676 }, { 253,1676 }, { 254,1676 }, { 255,1676 },
+
+ { 256,1676 }, {   0,   0 }, {   0,3619 }, {   1,-11079 }, {   2,-11079 },
+ {   3,-11079 }, {   4,-11079 }, {   5,-11079 }, {   6,-11079 }, {   7,-11079 },
+ {   8,-11079 }, {   9,-11104 }, {  10,-11104 }, {  11,-11079 }, {  12,-11079 },
+ {  13,-11104 }, {  14,-11079 }, {  15,-11079 }, {  16,-11079 }, {  17,-11079 },
+ {  18,-11079 }, {  19,-11079 }, {  20,-11079 }, {  21,-11079 }, {  22,-11079 },
+ {  23,-11079 }, {  24,-11079 }, {  25,-11079 }, {  26,-11079 }, {  27,-11079 },
+ {  28,-11079 }, {  29,-11079 }, {  30,-11079 }, {  31,-11079 }, {  32,-11104 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11079 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11104 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-11079 }, {  46,-11104 }, {  47,-11104 },
+
+ {  48,-11079 }, {  49,-11079 }, {  50,-11079 }, {  51,-11079 }, {  52,-11079 },
+ {  53,-11079 }, {  54,-11079 }, {  55,-11079 }, {  56,-11079 }, {  57,-11079 },
+ {  58,-11079 }, {   0,   0 }, {   0,   0 }, {  61,-11104 }, {   0,   0 },
+ {  63,-11079 }, {   0,   0 }, {  65,-11079 }, {  66,-11079 }, {  67,-11079 },
+ {  68,-11079 }, {  69,-11079 }, {  70,-11079 }, {  71,-11079 }, {  72,-11079 },
+ {  73,-11079 }, {  74,-11079 }, {  75,-11079 }, {  76,-11079 }, {  77,-11079 },
+ {  78,-11079 }, {  79,-11079 }, {  80,-11079 }, {  81,-11079 }, {  82,-11079 },
+ {  83,-11079 }, {  84,-11079 }, {  85,-11079 }, {  86,-11079 }, {  87,-11079 },
+ {  88,-11079 }, {  89,-11079 }, {  90,-11079 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-11079 }, {   0,   0 }, {  97,-11079 },
+
+ {  98,-11079 }, {  99,-11079 }, { 100,-11079 }, { 101,-11079 }, { 102,-11079 },
+ { 103,-11079 }, { 104,-11079 }, { 105,-11079 }, { 106,-11079 }, { 107,-11079 },
+ { 108,-11079 }, { 109,-11079 }, { 110,1676 }, { 111,-11079 }, { 112,-11079 },
+ { 113,-11079 }, { 114,-11079 }, { 115,-11079 }, { 116,-11079 }, { 117,-11079 },
+ { 118,-11079 }, { 119,-11079 }, { 120,-11079 }, { 121,-11079 }, { 122,-11079 },
+ {   0,   0 }, { 124,-11104 }, { 125,-11104 }, { 126,-11104 }, { 127,-11079 },
+ { 128,-11079 }, { 129,-11079 }, { 130,-11079 }, { 131,-11079 }, { 132,-11079 },
+ { 133,-11079 }, { 134,-11079 }, { 135,-11079 }, { 136,-11079 }, { 137,-11079 },
+ { 138,-11079 }, { 139,-11079 }, { 140,-11079 }, { 141,-11079 }, { 142,-11079 },
+ { 143,-11079 }, { 144,-11079 }, { 145,-11079 }, { 146,-11079 }, { 147,-11079 },
+
+ { 148,-11079 }, { 149,-11079 }, { 150,-11079 }, { 151,-11079 }, { 152,-11079 },
+ { 153,-11079 }, { 154,-11079 }, { 155,-11079 }, { 156,-11079 }, { 157,-11079 },
+ { 158,-11079 }, { 159,-11079 }, { 160,-11079 }, { 161,-11079 }, { 162,-11079 },
+ { 163,-11079 }, { 164,-11079 }, { 165,-11079 }, { 166,-11079 }, { 167,-11079 },
+ { 168,-11079 }, { 169,-11079 }, { 170,-11079 }, { 171,-11079 }, { 172,-11079 },
+ { 173,-11079 }, { 174,-11079 }, { 175,-11079 }, { 176,-11079 }, { 177,-11079 },
+ { 178,-11079 }, { 179,-11079 }, { 180,-11079 }, { 181,-11079 }, { 182,-11079 },
+ { 183,-11079 }, { 184,-11079 }, { 185,-11079 }, { 186,-11079 }, { 187,-11079 },
+ { 188,-11079 }, { 189,-11079 }, { 190,-11079 }, { 191,-11079 }, { 192,-11079 },
+ { 193,-11079 }, { 194,-11079 }, { 195,-11079 }, { 196,-11079 }, { 197,-11079 },
+
+ { 198,-11079 }, { 199,-11079 }, { 200,-11079 }, { 201,-11079 }, { 202,-11079 },
+ { 203,-11079 }, { 204,-11079 }, { 205,-11079 }, { 206,-11079 }, { 207,-11079 },
+ { 208,-11079 }, { 209,-11079 }, { 210,-11079 }, { 211,-11079 }, { 212,-11079 },
+ { 213,-11079 }, { 214,-11079 }, { 215,-11079 }, { 216,-11079 }, { 217,-11079 },
+ { 218,-11079 }, { 219,-11079 }, { 220,-11079 }, { 221,-11079 }, { 222,-11079 },
+ { 223,-11079 }, { 224,-11079 }, { 225,-11079 }, { 226,-11079 }, { 227,-11079 },
+ { 228,-11079 }, { 229,-11079 }, { 230,-11079 }, { 231,-11079 }, { 232,-11079 },
+ { 233,-11079 }, { 234,-11079 }, { 235,-11079 }, { 236,-11079 }, { 237,-11079 },
+ { 238,-11079 }, { 239,-11079 }, { 240,-11079 }, { 241,-11079 }, { 242,-11079 },
+ { 243,-11079 }, { 244,-11079 }, { 245,-11079 }, { 246,-11079 }, { 247,-11079 },
+
+ { 248,-11079 }, { 249,-11079 }, { 250,-11079 }, { 251,-11079 }, { 252,-11079 },
+ { 253,-11079 }, { 254,-11079 }, { 255,-11079 }, { 256,-11079 }, {   0,  26 },
+ {   0,3361 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1676 },
+ {  10,1676 }, {   0,   0 }, {   0,   0 }, {  13,1676 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,1676 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,-1550 }, { 126,1678 }, {   0,   0 }, {   0,3233 }, {   1,-1160 },
+ {   2,-1160 }, {   3,-1160 }, {   4,-1160 }, {   5,-1160 }, {   6,-1160 },
+ {   7,-1160 }, {   8,-1160 }, {   9,-1160 }, {  10,-1160 }, {  11,-1160 },
+
+ {  12,-1160 }, {  13,-1160 }, {  14,-1160 }, {  15,-1160 }, {  16,-1160 },
+ {  17,-1160 }, {  18,-1160 }, {  19,-1160 }, {  20,-1160 }, {  21,-1160 },
+ {  22,-1160 }, {  23,-1160 }, {  24,-1160 }, {  25,-1160 }, {  26,-1160 },
+ {  27,-1160 }, {  28,-1160 }, {  29,-1160 }, {  30,-1160 }, {  31,-1160 },
+ {  32,-1160 }, {  33,-1160 }, {  34,-1160 }, {  35,-1160 }, {  36,-1160 },
+ {  37,-1160 }, {  38,-1160 }, {  39,-1160 }, {  40,-1160 }, {  41,-1160 },
+ {  42,-1160 }, {  43,-1160 }, {  44,-1160 }, {  45,-902 }, {  46,-1160 },
+ {  47,-1160 }, {  48,-1160 }, {  49,-1160 }, {  50,-1160 }, {  51,-1160 },
+ {  52,-1160 }, {  53,-1160 }, {  54,-1160 }, {  55,-1160 }, {  56,-1160 },
+ {  57,-1160 }, {  58,-1160 }, {  59,-1160 }, {  60,-1160 }, {  61,-1160 },
+
+ {  62,-1160 }, {  63,-1160 }, {  64,-1160 }, {  65,-1160 }, {  66,-1160 },
+ {  67,-1160 }, {  68,-1160 }, {  69,-1160 }, {  70,-1160 }, {  71,-1160 },
+ {  72,-1160 }, {  73,-1160 }, {  74,-1160 }, {  75,-1160 }, {  76,-1160 },
+ {  77,-1160 }, {  78,-1160 }, {  79,-1160 }, {  80,-1160 }, {  81,-1160 },
+ {  82,-1160 }, {  83,-1160 }, {  84,-1160 }, {  85,-1160 }, {  86,-1160 },
+ {  87,-1160 }, {  88,-1160 }, {  89,-1160 }, {  90,-1160 }, {  91,-1160 },
+ {  92,-1160 }, {  93,-1160 }, {  94,-1160 }, {  95,-1160 }, {  96,-1160 },
+ {  97,-1160 }, {  98,-1160 }, {  99,-1160 }, { 100,-1160 }, { 101,-1160 },
+ { 102,-1160 }, { 103,-1160 }, { 104,-1160 }, { 105,-1160 }, { 106,-1160 },
+ { 107,-1160 }, { 108,-1160 }, { 109,-1160 }, { 110,-1160 }, { 111,-1160 },
+
+ { 112,-1160 }, { 113,-1160 }, { 114,-1160 }, { 115,-1160 }, { 116,-1160 },
+ { 117,-1160 }, { 118,-1160 }, { 119,-1160 }, { 120,-1160 }, { 121,-1160 },
+ { 122,-1160 }, { 123,-1160 }, { 124,-1160 }, { 125,-1160 }, { 126,-1160 },
+ { 127,-1160 }, { 128,-1160 }, { 129,-1160 }, { 130,-1160 }, { 131,-1160 },
+ { 132,-1160 }, { 133,-1160 }, { 134,-1160 }, { 135,-1160 }, { 136,-1160 },
+ { 137,-1160 }, { 138,-1160 }, { 139,-1160 }, { 140,-1160 }, { 141,-1160 },
+ { 142,-1160 }, { 143,-1160 }, { 144,-1160 }, { 145,-1160 }, { 146,-1160 },
+ { 147,-1160 }, { 148,-1160 }, { 149,-1160 }, { 150,-1160 }, { 151,-1160 },
+ { 152,-1160 }, { 153,-1160 }, { 154,-1160 }, { 155,-1160 }, { 156,-1160 },
+ { 157,-1160 }, { 158,-1160 }, { 159,-1160 }, { 160,-1160 }, { 161,-1160 },
+
+ { 162,-1160 }, { 163,-1160 }, { 164,-1160 }, { 165,-1160 }, { 166,-1160 },
+ { 167,-1160 }, { 168,-1160 }, { 169,-1160 }, { 170,-1160 }, { 171,-1160 },
+ { 172,-1160 }, { 173,-1160 }, { 174,-1160 }, { 175,-1160 }, { 176,-1160 },
+ { 177,-1160 }, { 178,-1160 }, { 179,-1160 }, { 180,-1160 }, { 181,-1160 },
+ { 182,-1160 }, { 183,-1160 }, { 184,-1160 }, { 185,-1160 }, { 186,-1160 },
+ { 187,-1160 }, { 188,-1160 }, { 189,-1160 }, { 190,-1160 }, { 191,-1160 },
+ { 192,-1160 }, { 193,-1160 }, { 194,-1160 }, { 195,-1160 }, { 196,-1160 },
+ { 197,-1160 }, { 198,-1160 }, { 199,-1160 }, { 200,-1160 }, { 201,-1160 },
+ { 202,-1160 }, { 203,-1160 }, { 204,-1160 }, { 205,-1160 }, { 206,-1160 },
+ { 207,-1160 }, { 208,-1160 }, { 209,-1160 }, { 210,-1160 }, { 211,-1160 },
+
+ { 212,-1160 }, { 213,-1160 }, { 214,-1160 }, { 215,-1160 }, { 216,-1160 },
+ { 217,-1160 }, { 218,-1160 }, { 219,-1160 }, { 220,-1160 }, { 221,-1160 },
+ { 222,-1160 }, { 223,-1160 }, { 224,-1160 }, { 225,-1160 }, { 226,-1160 },
+ { 227,-1160 }, { 228,-1160 }, { 229,-1160 }, { 230,-1160 }, { 231,-1160 },
+ { 232,-1160 }, { 233,-1160 }, { 234,-1160 }, { 235,-1160 }, { 236,-1160 },
+ { 237,-1160 }, { 238,-1160 }, { 239,-1160 }, { 240,-1160 }, { 241,-1160 },
+ { 242,-1160 }, { 243,-1160 }, { 244,-1160 }, { 245,-1160 }, { 246,-1160 },
+ { 247,-1160 }, { 248,-1160 }, { 249,-1160 }, { 250,-1160 }, { 251,-1160 },
+ { 252,-1160 }, { 253,-1160 }, { 254,-1160 }, { 255,-1160 }, { 256,-1160 },
+ {   0,   0 }, {   0,2975 }, {   1,1419 }, {   2,1419 }, {   3,1419 },
+
+ {   4,1419 }, {   5,1419 }, {   6,1419 }, {   7,1419 }, {   8,1419 },
+ {   9,1419 }, {  10,1419 }, {  11,1419 }, {  12,1419 }, {  13,1419 },
+ {  14,1419 }, {  15,1419 }, {  16,1419 }, {  17,1419 }, {  18,1419 },
+ {  19,1419 }, {  20,1419 }, {  21,1419 }, {  22,1419 }, {  23,1419 },
+ {  24,1419 }, {  25,1419 }, {  26,1419 }, {  27,1419 }, {  28,1419 },
+ {  29,1419 }, {  30,1419 }, {  31,1419 }, {  32,1419 }, {  33,1419 },
+ {  34,1419 }, {  35,1419 }, {  36,1419 }, {  37,1419 }, {  38,1419 },
+ {  39,1419 }, {  40,1419 }, {  41,1419 }, {  42,1419 }, {  43,1419 },
+ {  44,1419 }, {  45,-258 }, {  46,1419 }, {  47,1419 }, {  48,1419 },
+ {  49,1419 }, {  50,1419 }, {  51,1419 }, {  52,1419 }, {  53,1419 },
+
+ {  54,1419 }, {  55,1419 }, {  56,1419 }, {  57,1419 }, {  58,1419 },
+ {  59,1419 }, {  60,1419 }, {  61,1419 }, {  62,1419 }, {  63,1419 },
+ {  64,1419 }, {  65,1419 }, {  66,1419 }, {  67,1419 }, {  68,1419 },
+ {  69,1419 }, {  70,1419 }, {  71,1419 }, {  72,1419 }, {  73,1419 },
+ {  74,1419 }, {  75,1419 }, {  76,1419 }, {  77,1419 }, {  78,1419 },
+ {  79,1419 }, {  80,1419 }, {  81,1419 }, {  82,1419 }, {  83,1419 },
+ {  84,1419 }, {  85,1419 }, {  86,1419 }, {  87,1419 }, {  88,1419 },
+ {  89,1419 }, {  90,1419 }, {  91,1419 }, {  92,1419 }, {  93,1419 },
+ {  94,1419 }, {  95,1419 }, {  96,1419 }, {  97,1419 }, {  98,1419 },
+ {  99,1419 }, { 100,1419 }, { 101,1419 }, { 102,1419 }, { 103,1419 },
+
+ { 104,1419 }, { 105,1419 }, { 106,1419 }, { 107,1419 }, { 108,1419 },
+ { 109,1419 }, { 110,1419 }, { 111,1419 }, { 112,1419 }, { 113,1419 },
+ { 114,1419 }, { 115,1419 }, { 116,1419 }, { 117,1419 }, { 118,1419 },
+ { 119,1419 }, { 120,1419 }, { 121,1419 }, { 122,1419 }, { 123,1419 },
+ { 124,1419 }, { 125,1419 }, { 126,1419 }, { 127,1419 }, { 128,1419 },
+ { 129,1419 }, { 130,1419 }, { 131,1419 }, { 132,1419 }, { 133,1419 },
+ { 134,1419 }, { 135,1419 }, { 136,1419 }, { 137,1419 }, { 138,1419 },
+ { 139,1419 }, { 140,1419 }, { 141,1419 }, { 142,1419 }, { 143,1419 },
+ { 144,1419 }, { 145,1419 }, { 146,1419 }, { 147,1419 }, { 148,1419 },
+ { 149,1419 }, { 150,1419 }, { 151,1419 }, { 152,1419 }, { 153,1419 },
+
+ { 154,1419 }, { 155,1419 }, { 156,1419 }, { 157,1419 }, { 158,1419 },
+ { 159,1419 }, { 160,1419 }, { 161,1419 }, { 162,1419 }, { 163,1419 },
+ { 164,1419 }, { 165,1419 }, { 166,1419 }, { 167,1419 }, { 168,1419 },
+ { 169,1419 }, { 170,1419 }, { 171,1419 }, { 172,1419 }, { 173,1419 },
+ { 174,1419 }, { 175,1419 }, { 176,1419 }, { 177,1419 }, { 178,1419 },
+ { 179,1419 }, { 180,1419 }, { 181,1419 }, { 182,1419 }, { 183,1419 },
+ { 184,1419 }, { 185,1419 }, { 186,1419 }, { 187,1419 }, { 188,1419 },
+ { 189,1419 }, { 190,1419 }, { 191,1419 }, { 192,1419 }, { 193,1419 },
+ { 194,1419 }, { 195,1419 }, { 196,1419 }, { 197,1419 }, { 198,1419 },
+ { 199,1419 }, { 200,1419 }, { 201,1419 }, { 202,1419 }, { 203,1419 },
+
+ { 204,1419 }, { 205,1419 }, { 206,1419 }, { 207,1419 }, { 208,1419 },
+ { 209,1419 }, { 210,1419 }, { 211,1419 }, { 212,1419 }, { 213,1419 },
+ { 214,1419 }, { 215,1419 }, { 216,1419 }, { 217,1419 }, { 218,1419 },
+ { 219,1419 }, { 220,1419 }, { 221,1419 }, { 222,1419 }, { 223,1419 },
+ { 224,1419 }, { 225,1419 }, { 226,1419 }, { 227,1419 }, { 228,1419 },
+ { 229,1419 }, { 230,1419 }, { 231,1419 }, { 232,1419 }, { 233,1419 },
+ { 234,1419 }, { 235,1419 }, { 236,1419 }, { 237,1419 }, { 238,1419 },
+ { 239,1419 }, { 240,1419 }, { 241,1419 }, { 242,1419 }, { 243,1419 },
+ { 244,1419 }, { 245,1419 }, { 246,1419 }, { 247,1419 }, { 248,1419 },
+ { 249,1419 }, { 250,1419 }, { 251,1419 }, { 252,1419 }, { 253,1419 },
+
+ { 254,1419 }, { 255,1419 }, { 256,1419 }, {   0,   0 }, {   0,2717 },
+ {   1,1419 }, {   2,1419 }, {   3,1419 }, {   4,1419 }, {   5,1419 },
+ {   6,1419 }, {   7,1419 }, {   8,1419 }, {   9,1419 }, {  10,1419 },
+ {  11,1419 }, {  12,1419 }, {  13,1419 }, {  14,1419 }, {  15,1419 },
+ {  16,1419 }, {  17,1419 }, {  18,1419 }, {  19,1419 }, {  20,1419 },
+ {  21,1419 }, {  22,1419 }, {  23,1419 }, {  24,1419 }, {  25,1419 },
+ {  26,1419 }, {  27,1419 }, {  28,1419 }, {  29,1419 }, {  30,1419 },
+ {  31,1419 }, {  32,1419 }, {  33,1419 }, {  34,1419 }, {  35,1419 },
+ {  36,1419 }, {  37,1419 }, {  38,1419 }, {  39,1419 }, {  40,1419 },
+ {  41,1419 }, {  42,1419 }, {  43,1419 }, {  44,1419 }, {  45,-516 },
+
+ {  46,1419 }, {  47,1419 }, {  48,1419 }, {  49,1419 }, {  50,1419 },
+ {  51,1419 }, {  52,1419 }, {  53,1419 }, {  54,1419 }, {  55,1419 },
+ {  56,1419 }, {  57,1419 }, {  58,1419 }, {  59,1419 }, {  60,1419 },
+ {  61,1419 }, {  62,1419 }, {  63,1419 }, {  64,1419 }, {  65,1419 },
+ {  66,1419 }, {  67,1419 }, {  68,1419 }, {  69,1419 }, {  70,1419 },
+ {  71,1419 }, {  72,1419 }, {  73,1419 }, {  74,1419 }, {  75,1419 },
+ {  76,1419 }, {  77,1419 }, {  78,1419 }, {  79,1419 }, {  80,1419 },
+ {  81,1419 }, {  82,1419 }, {  83,1419 }, {  84,1419 }, {  85,1419 },
+ {  86,1419 }, {  87,1419 }, {  88,1419 }, {  89,1419 }, {  90,1419 },
+ {  91,1419 }, {  92,1419 }, {  93,1419 }, {  94,1419 }, {  95,1419 },
+
+ {  96,1419 }, {  97,1419 }, {  98,1419 }, {  99,1419 }, { 100,1419 },
+ { 101,1419 }, { 102,1419 }, { 103,1419 }, { 104,1419 }, { 105,1419 },
+ { 106,1419 }, { 107,1419 }, { 108,1419 }, { 109,1419 }, { 110,1419 },
+ { 111,1419 }, { 112,1419 }, { 113,1419 }, { 114,1419 }, { 115,1419 },
+ { 116,1419 }, { 117,1419 }, { 118,1419 }, { 119,1419 }, { 120,1419 },
+ { 121,1419 }, { 122,1419 }, { 123,1419 }, { 124,1419 }, { 125,1036 },
+ { 126,1419 }, { 127,1419 }, { 128,1419 }, { 129,1419 }, { 130,1419 },
+ { 131,1419 }, { 132,1419 }, { 133,1419 }, { 134,1419 }, { 135,1419 },
+ { 136,1419 }, { 137,1419 }, { 138,1419 }, { 139,1419 }, { 140,1419 },
+ { 141,1419 }, { 142,1419 }, { 143,1419 }, { 144,1419 }, { 145,1419 },
+
+ { 146,1419 }, { 147,1419 }, { 148,1419 }, { 149,1419 }, { 150,1419 },
+ { 151,1419 }, { 152,1419 }, { 153,1419 }, { 154,1419 }, { 155,1419 },
+ { 156,1419 }, { 157,1419 }, { 158,1419 }, { 159,1419 }, { 160,1419 },
+ { 161,1419 }, { 162,1419 }, { 163,1419 }, { 164,1419 }, { 165,1419 },
+ { 166,1419 }, { 167,1419 }, { 168,1419 }, { 169,1419 }, { 170,1419 },
+ { 171,1419 }, { 172,1419 }, { 173,1419 }, { 174,1419 }, { 175,1419 },
+ { 176,1419 }, { 177,1419 }, { 178,1419 }, { 179,1419 }, { 180,1419 },
+ { 181,1419 }, { 182,1419 }, { 183,1419 }, { 184,1419 }, { 185,1419 },
+ { 186,1419 }, { 187,1419 }, { 188,1419 }, { 189,1419 }, { 190,1419 },
+ { 191,1419 }, { 192,1419 }, { 193,1419 }, { 194,1419 }, { 195,1419 },
+
+ { 196,1419 }, { 197,1419 }, { 198,1419 }, { 199,1419 }, { 200,1419 },
+ { 201,1419 }, { 202,1419 }, { 203,1419 }, { 204,1419 }, { 205,1419 },
+ { 206,1419 }, { 207,1419 }, { 208,1419 }, { 209,1419 }, { 210,1419 },
+ { 211,1419 }, { 212,1419 }, { 213,1419 }, { 214,1419 }, { 215,1419 },
+ { 216,1419 }, { 217,1419 }, { 218,1419 }, { 219,1419 }, { 220,1419 },
+ { 221,1419 }, { 222,1419 }, { 223,1419 }, { 224,1419 }, { 225,1419 },
+ { 226,1419 }, { 227,1419 }, { 228,1419 }, { 229,1419 }, { 230,1419 },
+ { 231,1419 }, { 232,1419 }, { 233,1419 }, { 234,1419 }, { 235,1419 },
+ { 236,1419 }, { 237,1419 }, { 238,1419 }, { 239,1419 }, { 240,1419 },
+ { 241,1419 }, { 242,1419 }, { 243,1419 }, { 244,1419 }, { 245,1419 },
+
+ { 246,1419 }, { 247,1419 }, { 248,1419 }, { 249,1419 }, { 250,1419 },
+ { 251,1419 }, { 252,1419 }, { 253,1419 }, { 254,1419 }, { 255,1419 },
+ { 256,1419 }, {   0,   0 }, {   0,2459 }, {   1,1161 }, {   2,1161 },
+ {   3,1161 }, {   4,1161 }, {   5,1161 }, {   6,1161 }, {   7,1161 },
+ {   8,1161 }, {   9,1161 }, {  10,1161 }, {  11,1161 }, {  12,1161 },
+ {  13,1161 }, {  14,1161 }, {  15,1161 }, {  16,1161 }, {  17,1161 },
+ {  18,1161 }, {  19,1161 }, {  20,1161 }, {  21,1161 }, {  22,1161 },
+ {  23,1161 }, {  24,1161 }, {  25,1161 }, {  26,1161 }, {  27,1161 },
+ {  28,1161 }, {  29,1161 }, {  30,1161 }, {  31,1161 }, {  32,1161 },
+ {  33,1161 }, {  34,1161 }, {  35,1161 }, {  36,1161 }, {  37,1161 },
+
+ {  38,1161 }, {  39,1161 }, {  40,1161 }, {  41,1161 }, {  42,1161 },
+ {  43,1161 }, {  44,1161 }, {  45,-774 }, {  46,1161 }, {  47,1161 },
+ {  48,1161 }, {  49,1161 }, {  50,1161 }, {  51,1161 }, {  52,1161 },
+ {  53,1161 }, {  54,1161 }, {  55,1161 }, {  56,1161 }, {  57,1161 },
+ {  58,1161 }, {  59,1161 }, {  60,1161 }, {  61,1161 }, {  62,1161 },
+ {  63,1161 }, {  64,1161 }, {  65,1161 }, {  66,1161 }, {  67,1161 },
+ {  68,1161 }, {  69,1161 }, {  70,1161 }, {  71,1161 }, {  72,1161 },
+ {  73,1161 }, {  74,1161 }, {  75,1161 }, {  76,1161 }, {  77,1161 },
+ {  78,1161 }, {  79,1161 }, {  80,1161 }, {  81,1161 }, {  82,1161 },
+ {  83,1161 }, {  84,1161 }, {  85,1161 }, {  86,1161 }, {  87,1161 },
+
+ {  88,1161 }, {  89,1161 }, {  90,1161 }, {  91,1161 }, {  92,1161 },
+ {  93,1161 }, {  94,1161 }, {  95,1161 }, {  96,1161 }, {  97,1161 },
+ {  98,1161 }, {  99,1161 }, { 100,1161 }, { 101,1161 }, { 102,1161 },
+ { 103,1161 }, { 104,1161 }, { 105,1161 }, { 106,1161 }, { 107,1161 },
+ { 108,1161 }, { 109,1161 }, { 110,1161 }, { 111,1161 }, { 112,1161 },
+ { 113,1161 }, { 114,1161 }, { 115,1161 }, { 116,1161 }, { 117,1161 },
+ { 118,1161 }, { 119,1161 }, { 120,1161 }, { 121,1161 }, { 122,1161 },
+ { 123,1161 }, { 124,1161 }, { 125,-258 }, { 126,1161 }, { 127,1161 },
+ { 128,1161 }, { 129,1161 }, { 130,1161 }, { 131,1161 }, { 132,1161 },
+ { 133,1161 }, { 134,1161 }, { 135,1161 }, { 136,1161 }, { 137,1161 },
+
+ { 138,1161 }, { 139,1161 }, { 140,1161 }, { 141,1161 }, { 142,1161 },
+ { 143,1161 }, { 144,1161 }, { 145,1161 }, { 146,1161 }, { 147,1161 },
+ { 148,1161 }, { 149,1161 }, { 150,1161 }, { 151,1161 }, { 152,1161 },
+ { 153,1161 }, { 154,1161 }, { 155,1161 }, { 156,1161 }, { 157,1161 },
+ { 158,1161 }, { 159,1161 }, { 160,1161 }, { 161,1161 }, { 162,1161 },
+ { 163,1161 }, { 164,1161 }, { 165,1161 }, { 166,1161 }, { 167,1161 },
+ { 168,1161 }, { 169,1161 }, { 170,1161 }, { 171,1161 }, { 172,1161 },
+ { 173,1161 }, { 174,1161 }, { 175,1161 }, { 176,1161 }, { 177,1161 },
+ { 178,1161 }, { 179,1161 }, { 180,1161 }, { 181,1161 }, { 182,1161 },
+ { 183,1161 }, { 184,1161 }, { 185,1161 }, { 186,1161 }, { 187,1161 },
+
+ { 188,1161 }, { 189,1161 }, { 190,1161 }, { 191,1161 }, { 192,1161 },
+ { 193,1161 }, { 194,1161 }, { 195,1161 }, { 196,1161 }, { 197,1161 },
+ { 198,1161 }, { 199,1161 }, { 200,1161 }, { 201,1161 }, { 202,1161 },
+ { 203,1161 }, { 204,1161 }, { 205,1161 }, { 206,1161 }, { 207,1161 },
+ { 208,1161 }, { 209,1161 }, { 210,1161 }, { 211,1161 }, { 212,1161 },
+ { 213,1161 }, { 214,1161 }, { 215,1161 }, { 216,1161 }, { 217,1161 },
+ { 218,1161 }, { 219,1161 }, { 220,1161 }, { 221,1161 }, { 222,1161 },
+ { 223,1161 }, { 224,1161 }, { 225,1161 }, { 226,1161 }, { 227,1161 },
+ { 228,1161 }, { 229,1161 }, { 230,1161 }, { 231,1161 }, { 232,1161 },
+ { 233,1161 }, { 234,1161 }, { 235,1161 }, { 236,1161 }, { 237,1161 },
+
+ { 238,1161 }, { 239,1161 }, { 240,1161 }, { 241,1161 }, { 242,1161 },
+ { 243,1161 }, { 244,1161 }, { 245,1161 }, { 246,1161 }, { 247,1161 },
+ { 248,1161 }, { 249,1161 }, { 250,1161 }, { 251,1161 }, { 252,1161 },
+ { 253,1161 }, { 254,1161 }, { 255,1161 }, { 256,1161 }, {   0,   0 },
+ {   0,2201 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 },
+ {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+
+ {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,1161 }, {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1943 }, {   1,-12755 },
+ {   2,-12755 }, {   3,-12755 }, {   4,-12755 }, {   5,-12755 }, {   6,-12755 },
+ {   7,-12755 }, {   8,-12755 }, {   9,-12780 }, {  10,-12780 }, {  11,-12755 },
+ {  12,-12755 }, {  13,-12780 }, {  14,-12755 }, {  15,-12755 }, {  16,-12755 },
+ {  17,-12755 }, {  18,-12755 }, {  19,-12755 }, {  20,-12755 }, {  21,-12755 },
+
+ {  22,-12755 }, {  23,-12755 }, {  24,-12755 }, {  25,-12755 }, {  26,-12755 },
+ {  27,-12755 }, {  28,-12755 }, {  29,-12755 }, {  30,-12755 }, {  31,-12755 },
+ {  32,-12780 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12755 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12780 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12755 }, {  46,-12780 },
+ {  47,-12780 }, {  48,-12755 }, {  49,-12755 }, {  50,-12755 }, {  51,-12755 },
+ {  52,-12755 }, {  53,-12755 }, {  54,-12755 }, {  55,-12755 }, {  56,-12755 },
+ {  57,-12755 }, {  58,-12755 }, {   0,   0 }, {   0,   0 }, {  61,-12780 },
+ {   0,   0 }, {  63,-12755 }, {   0,   0 }, {  65,-12755 }, {  66,-12755 },
+ {  67,-12755 }, {  68,-12755 }, {  69,-12755 }, {  70,-12755 }, {  71,-12755 },
+
+ {  72,-12755 }, {  73,-12755 }, {  74,-12755 }, {  75,-12755 }, {  76,-12755 },
+ {  77,-12755 }, {  78,-12755 }, {  79,-12755 }, {  80,-12755 }, {  81,-12755 },
+ {  82,-12755 }, {  83,-12755 }, {  84,-12755 }, {  85,-12755 }, {  86,-12755 },
+ {  87,-12755 }, {  88,-12755 }, {  89,-12755 }, {  90,-12755 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12755 }, {   0,   0 },
+ {  97,-12755 }, {  98,-12755 }, {  99,-12755 }, { 100,-12755 }, { 101, 905 },
+ { 102,-12755 }, { 103,-12755 }, { 104,-12755 }, { 105,-12755 }, { 106,-12755 },
+ { 107,-12755 }, { 108,-12755 }, { 109,-12755 }, { 110,-12755 }, { 111,-12755 },
+ { 112,-12755 }, { 113,-12755 }, { 114,-12755 }, { 115,-12755 }, { 116,-12755 },
+ { 117,-12755 }, { 118,-12755 }, { 119,-12755 }, { 120,-12755 }, { 121,-12755 },
+
+ { 122,-12755 }, {   0,   0 }, { 124,-12780 }, { 125,-12780 }, { 126,-12780 },
+ { 127,-12755 }, { 128,-12755 }, { 129,-12755 }, { 130,-12755 }, { 131,-12755 },
+ { 132,-12755 }, { 133,-12755 }, { 134,-12755 }, { 135,-12755 }, { 136,-12755 },
+ { 137,-12755 }, { 138,-12755 }, { 139,-12755 }, { 140,-12755 }, { 141,-12755 },
+ { 142,-12755 }, { 143,-12755 }, { 144,-12755 }, { 145,-12755 }, { 146,-12755 },
+ { 147,-12755 }, { 148,-12755 }, { 149,-12755 }, { 150,-12755 }, { 151,-12755 },
+ { 152,-12755 }, { 153,-12755 }, { 154,-12755 }, { 155,-12755 }, { 156,-12755 },
+ { 157,-12755 }, { 158,-12755 }, { 159,-12755 }, { 160,-12755 }, { 161,-12755 },
+ { 162,-12755 }, { 163,-12755 }, { 164,-12755 }, { 165,-12755 }, { 166,-12755 },
+ { 167,-12755 }, { 168,-12755 }, { 169,-12755 }, { 170,-12755 }, { 171,-12755 },
+
+ { 172,-12755 }, { 173,-12755 }, { 174,-12755 }, { 175,-12755 }, { 176,-12755 },
+ { 177,-12755 }, { 178,-12755 }, { 179,-12755 }, { 180,-12755 }, { 181,-12755 },
+ { 182,-12755 }, { 183,-12755 }, { 184,-12755 }, { 185,-12755 }, { 186,-12755 },
+ { 187,-12755 }, { 188,-12755 }, { 189,-12755 }, { 190,-12755 }, { 191,-12755 },
+ { 192,-12755 }, { 193,-12755 }, { 194,-12755 }, { 195,-12755 }, { 196,-12755 },
+ { 197,-12755 }, { 198,-12755 }, { 199,-12755 }, { 200,-12755 }, { 201,-12755 },
+ { 202,-12755 }, { 203,-12755 }, { 204,-12755 }, { 205,-12755 }, { 206,-12755 },
+ { 207,-12755 }, { 208,-12755 }, { 209,-12755 }, { 210,-12755 }, { 211,-12755 },
+ { 212,-12755 }, { 213,-12755 }, { 214,-12755 }, { 215,-12755 }, { 216,-12755 },
+ { 217,-12755 }, { 218,-12755 }, { 219,-12755 }, { 220,-12755 }, { 221,-12755 },
+
+ { 222,-12755 }, { 223,-12755 }, { 224,-12755 }, { 225,-12755 }, { 226,-12755 },
+ { 227,-12755 }, { 228,-12755 }, { 229,-12755 }, { 230,-12755 }, { 231,-12755 },
+ { 232,-12755 }, { 233,-12755 }, { 234,-12755 }, { 235,-12755 }, { 236,-12755 },
+ { 237,-12755 }, { 238,-12755 }, { 239,-12755 }, { 240,-12755 }, { 241,-12755 },
+ { 242,-12755 }, { 243,-12755 }, { 244,-12755 }, { 245,-12755 }, { 246,-12755 },
+ { 247,-12755 }, { 248,-12755 }, { 249,-12755 }, { 250,-12755 }, { 251,-12755 },
+ { 252,-12755 }, { 253,-12755 }, { 254,-12755 }, { 255,-12755 }, { 256,-12755 },
+ {   0,   0 }, {   0,1685 }, {   0,   0 }, {   0,1683 }, {   0,  12 },
+ {   0,1681 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,-3226 }, { 126,   2 }, { 125,-3228 }, {   0,   0 },
+ {   0,1556 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+ {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
+ {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+ {  45,-1677 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
+ {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
+ {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
+ { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1298 }, {   1, 518 },
+ {   2, 518 }, {   3, 518 }, {   4, 518 }, {   5, 518 }, {   6, 518 },
+ {   7, 518 }, {   8, 518 }, {   9, 518 }, {  10, 518 }, {  11, 518 },
+ {  12, 518 }, {  13, 518 }, {  14, 518 }, {  15, 518 }, {  16, 518 },
+ {  17, 518 }, {  18, 518 }, {  19, 518 }, {  20, 518 }, {  21, 518 },
+ {  22, 518 }, {  23, 518 }, {  24, 518 }, {  25, 518 }, {  26, 518 },
+
+ {  27, 518 }, {  28, 518 }, {  29, 518 }, {  30, 518 }, {  31, 518 },
+ {  32, 518 }, {  33, 518 }, {  34, 518 }, {  35, 518 }, {  36, 518 },
+ {  37, 518 }, {  38, 518 }, {  39, 518 }, {  40, 518 }, {  41, 518 },
+ {  42, 518 }, {  43, 518 }, {  44, 518 }, {  45,-1935 }, {  46, 518 },
+ {  47, 518 }, {  48, 518 }, {  49, 518 }, {  50, 518 }, {  51, 518 },
+ {  52, 518 }, {  53, 518 }, {  54, 518 }, {  55, 518 }, {  56, 518 },
+ {  57, 518 }, {  58, 518 }, {  59, 518 }, {  60, 518 }, {  61, 518 },
+ {  62, 518 }, {  63, 518 }, {  64, 518 }, {  65, 518 }, {  66, 518 },
+ {  67, 518 }, {  68, 518 }, {  69, 518 }, {  70, 518 }, {  71, 518 },
+ {  72, 518 }, {  73, 518 }, {  74, 518 }, {  75, 518 }, {  76, 518 },
+
+ {  77, 518 }, {  78, 518 }, {  79, 518 }, {  80, 518 }, {  81, 518 },
+ {  82, 518 }, {  83, 518 }, {  84, 518 }, {  85, 518 }, {  86, 518 },
+ {  87, 518 }, {  88, 518 }, {  89, 518 }, {  90, 518 }, {  91, 518 },
+ {  92, 518 }, {  93, 518 }, {  94, 518 }, {  95, 518 }, {  96, 518 },
+ {  97, 518 }, {  98, 518 }, {  99, 518 }, { 100, 518 }, { 101, 518 },
+ { 102, 518 }, { 103, 518 }, { 104, 518 }, { 105, 518 }, { 106, 518 },
+ { 107, 518 }, { 108, 518 }, { 109, 518 }, { 110, 518 }, { 111, 518 },
+ { 112, 518 }, { 113, 518 }, { 114, 518 }, { 115, 518 }, { 116, 518 },
+ { 117, 518 }, { 118, 518 }, { 119, 518 }, { 120, 518 }, { 121, 518 },
+ { 122, 518 }, { 123, 518 }, { 124, 518 }, { 125, 518 }, { 126, 518 },
+
+ { 127, 518 }, { 128, 518 }, { 129, 518 }, { 130, 518 }, { 131, 518 },
+ { 132, 518 }, { 133, 518 }, { 134, 518 }, { 135, 518 }, { 136, 518 },
+ { 137, 518 }, { 138, 518 }, { 139, 518 }, { 140, 518 }, { 141, 518 },
+ { 142, 518 }, { 143, 518 }, { 144, 518 }, { 145, 518 }, { 146, 518 },
+ { 147, 518 }, { 148, 518 }, { 149, 518 }, { 150, 518 }, { 151, 518 },
+ { 152, 518 }, { 153, 518 }, { 154, 518 }, { 155, 518 }, { 156, 518 },
+ { 157, 518 }, { 158, 518 }, { 159, 518 }, { 160, 518 }, { 161, 518 },
+ { 162, 518 }, { 163, 518 }, { 164, 518 }, { 165, 518 }, { 166, 518 },
+ { 167, 518 }, { 168, 518 }, { 169, 518 }, { 170, 518 }, { 171, 518 },
+ { 172, 518 }, { 173, 518 }, { 174, 518 }, { 175, 518 }, { 176, 518 },
+
+ { 177, 518 }, { 178, 518 }, { 179, 518 }, { 180, 518 }, { 181, 518 },
+ { 182, 518 }, { 183, 518 }, { 184, 518 }, { 185, 518 }, { 186, 518 },
+ { 187, 518 }, { 188, 518 }, { 189, 518 }, { 190, 518 }, { 191, 518 },
+ { 192, 518 }, { 193, 518 }, { 194, 518 }, { 195, 518 }, { 196, 518 },
+ { 197, 518 }, { 198, 518 }, { 199, 518 }, { 200, 518 }, { 201, 518 },
+ { 202, 518 }, { 203, 518 }, { 204, 518 }, { 205, 518 }, { 206, 518 },
+ { 207, 518 }, { 208, 518 }, { 209, 518 }, { 210, 518 }, { 211, 518 },
+ { 212, 518 }, { 213, 518 }, { 214, 518 }, { 215, 518 }, { 216, 518 },
+ { 217, 518 }, { 218, 518 }, { 219, 518 }, { 220, 518 }, { 221, 518 },
+ { 222, 518 }, { 223, 518 }, { 224, 518 }, { 225, 518 }, { 226, 518 },
+
+ { 227, 518 }, { 228, 518 }, { 229, 518 }, { 230, 518 }, { 231, 518 },
+ { 232, 518 }, { 233, 518 }, { 234, 518 }, { 235, 518 }, { 236, 518 },
+ { 237, 518 }, { 238, 518 }, { 239, 518 }, { 240, 518 }, { 241, 518 },
+ { 242, 518 }, { 243, 518 }, { 244, 518 }, { 245, 518 }, { 246, 518 },
+ { 247, 518 }, { 248, 518 }, { 249, 518 }, { 250, 518 }, { 251, 518 },
+ { 252, 518 }, { 253, 518 }, { 254, 518 }, { 255, 518 }, { 256, 518 },
+ {   0,   0 }, {   0,1040 }, {   0,   0 }, {   0,1038 }, {   1,-13660 },
+ {   2,-13660 }, {   3,-13660 }, {   4,-13660 }, {   5,-13660 }, {   6,-13660 },
+ {   7,-13660 }, {   8,-13660 }, {   9,-13685 }, {  10,-13685 }, {  11,-13660 },
+ {  12,-13660 }, {  13,-13685 }, {  14,-13660 }, {  15,-13660 }, {  16,-13660 },
+
+ {  17,-13660 }, {  18,-13660 }, {  19,-13660 }, {  20,-13660 }, {  21,-13660 },
+ {  22,-13660 }, {  23,-13660 }, {  24,-13660 }, {  25,-13660 }, {  26,-13660 },
+ {  27,-13660 }, {  28,-13660 }, {  29,-13660 }, {  30,-13660 }, {  31,-13660 },
+ {  32,-13685 }, {   0,  24 }, {   0,1004 }, {   0,   0 }, {  36,-13660 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-13685 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-13660 }, {  46,-13685 },
+ {  47,-13685 }, {  48,-13660 }, {  49,-13660 }, {  50,-13660 }, {  51,-13660 },
+ {  52,-13660 }, {  53,-13660 }, {  54,-13660 }, {  55,-13660 }, {  56,-13660 },
+ {  57,-13660 }, {  58,-13660 }, {   0,   0 }, {   0,   0 }, {  61,-13685 },
+ {   0,   0 }, {  63,-13660 }, {   0,   0 }, {  65,-13660 }, {  66,-13660 },
+
+ {  67,-13660 }, {  68,-13660 }, {  69,-13660 }, {  70,-13660 }, {  71,-13660 },
+ {  72,-13660 }, {  73,-13660 }, {  74,-13660 }, {  75,-13660 }, {  76,-13660 },
+ {  77,-13660 }, {  78,-13660 }, {  79,-13660 }, {  80,-13660 }, {  81,-13660 },
+ {  82,-13660 }, {  83,-13660 }, {  84,-13660 }, {  85,-13660 }, {  86,-13660 },
+ {  87,-13660 }, {  88,-13660 }, {  89,-13660 }, {  90,-13660 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-13660 }, {   0,   0 },
+ {  97,-13660 }, {  98,-13660 }, {  99,-13660 }, { 100, 518 }, { 101,-13660 },
+ { 102,-13660 }, { 103,-13660 }, { 104,-13660 }, { 105,-13660 }, { 106,-13660 },
+ { 107,-13660 }, { 108,-13660 }, { 109,-13660 }, { 110,-13660 }, { 111,-13660 },
+ { 112,-13660 }, { 113,-13660 }, { 114,-13660 }, { 115,-13660 }, { 116,-13660 },
+
+ { 117,-13660 }, { 118,-13660 }, { 119,-13660 }, { 120,-13660 }, { 121,-13660 },
+ { 122,-13660 }, { 125, 518 }, { 124,-13685 }, { 125,-13685 }, { 126,-13685 },
+ { 127,-13660 }, { 128,-13660 }, { 129,-13660 }, { 130,-13660 }, { 131,-13660 },
+ { 132,-13660 }, { 133,-13660 }, { 134,-13660 }, { 135,-13660 }, { 136,-13660 },
+ { 137,-13660 }, { 138,-13660 }, { 139,-13660 }, { 140,-13660 }, { 141,-13660 },
+ { 142,-13660 }, { 143,-13660 }, { 144,-13660 }, { 145,-13660 }, { 146,-13660 },
+ { 147,-13660 }, { 148,-13660 }, { 149,-13660 }, { 150,-13660 }, { 151,-13660 },
+ { 152,-13660 }, { 153,-13660 }, { 154,-13660 }, { 155,-13660 }, { 156,-13660 },
+ { 157,-13660 }, { 158,-13660 }, { 159,-13660 }, { 160,-13660 }, { 161,-13660 },
+ { 162,-13660 }, { 163,-13660 }, { 164,-13660 }, { 165,-13660 }, { 166,-13660 },
+
+ { 167,-13660 }, { 168,-13660 }, { 169,-13660 }, { 170,-13660 }, { 171,-13660 },
+ { 172,-13660 }, { 173,-13660 }, { 174,-13660 }, { 175,-13660 }, { 176,-13660 },
+ { 177,-13660 }, { 178,-13660 }, { 179,-13660 }, { 180,-13660 }, { 181,-13660 },
+ { 182,-13660 }, { 183,-13660 }, { 184,-13660 }, { 185,-13660 }, { 186,-13660 },
+ { 187,-13660 }, { 188,-13660 }, { 189,-13660 }, { 190,-13660 }, { 191,-13660 },
+ { 192,-13660 }, { 193,-13660 }, { 194,-13660 }, { 195,-13660 }, { 196,-13660 },
+ { 197,-13660 }, { 198,-13660 }, { 199,-13660 }, { 200,-13660 }, { 201,-13660 },
+ { 202,-13660 }, { 203,-13660 }, { 204,-13660 }, { 205,-13660 }, { 206,-13660 },
+ { 207,-13660 }, { 208,-13660 }, { 209,-13660 }, { 210,-13660 }, { 211,-13660 },
+ { 212,-13660 }, { 213,-13660 }, { 214,-13660 }, { 215,-13660 }, { 216,-13660 },
+
+ { 217,-13660 }, { 218,-13660 }, { 219,-13660 }, { 220,-13660 }, { 221,-13660 },
+ { 222,-13660 }, { 223,-13660 }, { 224,-13660 }, { 225,-13660 }, { 226,-13660 },
+ { 227,-13660 }, { 228,-13660 }, { 229,-13660 }, { 230,-13660 }, { 231,-13660 },
+ { 232,-13660 }, { 233,-13660 }, { 234,-13660 }, { 235,-13660 }, { 236,-13660 },
+ { 237,-13660 }, { 238,-13660 }, { 239,-13660 }, { 240,-13660 }, { 241,-13660 },
+ { 242,-13660 }, { 243,-13660 }, { 244,-13660 }, { 245,-13660 }, { 246,-13660 },
+ { 247,-13660 }, { 248,-13660 }, { 249,-13660 }, { 250,-13660 }, { 251,-13660 },
+ { 252,-13660 }, { 253,-13660 }, { 254,-13660 }, { 255,-13660 }, { 256,-13660 },
+ {   0,   0 }, {   0, 780 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45,-2453 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 522 },
 
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ {   0,   0 }, {   0, 520 }, {   1,-14178 }, {   2,-14178 }, {   3,-14178 },
+ {   4,-14178 }, {   5,-14178 }, {   6,-14178 }, {   7,-14178 }, {   8,-14178 },
+ {   9, 260 }, {  10, 260 }, {  11,-14178 }, {  12,-14178 }, {  13, 260 },
+ {  14,-14178 }, {  15,-14178 }, {  16,-14178 }, {  17,-14178 }, {  18,-14178 },
+ {  19,-14178 }, {  20,-14178 }, {  21,-14178 }, {  22,-14178 }, {  23,-14178 },
+ {  24,-14178 }, {  25,-14178 }, {  26,-14178 }, {  27,-14178 }, {  28,-14178 },
+ {  29,-14178 }, {  30,-14178 }, {  31,-14178 }, {  32, 260 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-14178 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41, 260 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-14178 }, {  46,-14203 }, {  47,-14203 }, {  48,-14178 },
 
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ {  49,-14178 }, {  50,-14178 }, {  51,-14178 }, {  52,-14178 }, {  53,-14178 },
+ {  54,-14178 }, {  55,-14178 }, {  56,-14178 }, {  57,-14178 }, {  58,-14178 },
+ {   0,   0 }, {   0,   0 }, {  61,-14203 }, {   0,   0 }, {  63,-14178 },
+ {   0,   0 }, {  65,-14178 }, {  66,-14178 }, {  67,-14178 }, {  68,-14178 },
+ {  69,-14178 }, {  70,-14178 }, {  71,-14178 }, {  72,-14178 }, {  73,-14178 },
+ {  74,-14178 }, {  75,-14178 }, {  76,-14178 }, {  77,-14178 }, {  78,-14178 },
+ {  79,-14178 }, {  80,-14178 }, {  81,-14178 }, {  82,-14178 }, {  83,-14178 },
+ {  84,-14178 }, {  85,-14178 }, {  86,-14178 }, {  87,-14178 }, {  88,-14178 },
+ {  89,-14178 }, {  90,-14178 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-14178 }, {   0,   0 }, {  97,-14178 }, {  98,-14178 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 },
- {   0,4942 }, {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 },
- {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 },
-
- {  10,-380 }, {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 },
- {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 },
- {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 },
- {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 },
- {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 },
- {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 },
- {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 },
- {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 },
- {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 },
- {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 },
-
- {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 },
- {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 },
- {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 },
- {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 },
- {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 },
- {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 },
- {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 },
- {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 },
- { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 },
- { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 },
-
- { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 },
- { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 },
- { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 },
- { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 },
- { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 },
- { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 },
- { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 },
- { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 },
- { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 },
- { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 },
-
- { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 },
- { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 },
- { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 },
- { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 },
- { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 },
- { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 },
- { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 },
- { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 },
- { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 },
- { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 },
-
- { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 },
- { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 },
- { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 },
- { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 },
- { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 },
- { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 },
- { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 },
- { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 },
- { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 },
- { 255,-257 }, {   0,   0 }, {   0,4685 }, {   1,-7349 }, {   2,-7349 },
-
- {   3,-7349 }, {   4,-7349 }, {   5,-7349 }, {   6,-7349 }, {   7,-7349 },
- {   8,-7349 }, {   9,-7374 }, {  10,-7374 }, {  11,-7349 }, {  12,-7349 },
- {  13,-7374 }, {  14,-7349 }, {  15,-7349 }, {  16,-7349 }, {  17,-7349 },
- {  18,-7349 }, {  19,-7349 }, {  20,-7349 }, {  21,-7349 }, {  22,-7349 },
- {  23,-7349 }, {  24,-7349 }, {  25,-7349 }, {  26,-7349 }, {  27,-7349 },
- {  28,-7349 }, {  29,-7349 }, {  30,-7349 }, {  31,-7349 }, {  32,-7374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7349 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7374 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7349 }, {  46,-7374 }, {  47,-7374 },
- {  48,-7349 }, {  49,-7349 }, {  50,-7349 }, {  51,-7349 }, {  52,-7349 },
-
- {  53,-7349 }, {  54,-7349 }, {  55,-7349 }, {  56,-7349 }, {  57,-7349 },
- {  58,-7349 }, {   0,   0 }, {   0,   0 }, {  61,-7374 }, {   0,   0 },
- {  63,-7349 }, {   0,   0 }, {  65,-7349 }, {  66,-7349 }, {  67,-7349 },
- {  68,-7349 }, {  69,-7349 }, {  70,-7349 }, {  71,-7349 }, {  72,-7349 },
- {  73,-7349 }, {  74,-7349 }, {  75,-7349 }, {  76,-7349 }, {  77,-7349 },
- {  78,-7349 }, {  79,-7349 }, {  80,-7349 }, {  81,-7349 }, {  82,-7349 },
- {  83,-7349 }, {  84,-7349 }, {  85,-7349 }, {  86,-7349 }, {  87,-7349 },
- {  88,-7349 }, {  89,-7349 }, {  90,-7349 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7349 }, {   0,   0 }, {  97,-7349 },
- {  98,-7349 }, {  99,-7349 }, { 100,-7349 }, { 101,1448 }, { 102,-7349 },
-
- { 103,-7349 }, { 104,-7349 }, { 105,-7349 }, { 106,-7349 }, { 107,-7349 },
- { 108,-7349 }, { 109,-7349 }, { 110,-7349 }, { 111,-7349 }, { 112,-7349 },
- { 113,-7349 }, { 114,-7349 }, { 115,-7349 }, { 116,-7349 }, { 117,-7349 },
- { 118,-7349 }, { 119,-7349 }, { 120,-7349 }, { 121,-7349 }, { 122,-7349 },
- {   0,   0 }, { 124,-7374 }, { 125,-7374 }, { 126,-7374 }, { 127,-7349 },
- { 128,-7349 }, { 129,-7349 }, { 130,-7349 }, { 131,-7349 }, { 132,-7349 },
- { 133,-7349 }, { 134,-7349 }, { 135,-7349 }, { 136,-7349 }, { 137,-7349 },
- { 138,-7349 }, { 139,-7349 }, { 140,-7349 }, { 141,-7349 }, { 142,-7349 },
- { 143,-7349 }, { 144,-7349 }, { 145,-7349 }, { 146,-7349 }, { 147,-7349 },
- { 148,-7349 }, { 149,-7349 }, { 150,-7349 }, { 151,-7349 }, { 152,-7349 },
-
- { 153,-7349 }, { 154,-7349 }, { 155,-7349 }, { 156,-7349 }, { 157,-7349 },
- { 158,-7349 }, { 159,-7349 }, { 160,-7349 }, { 161,-7349 }, { 162,-7349 },
- { 163,-7349 }, { 164,-7349 }, { 165,-7349 }, { 166,-7349 }, { 167,-7349 },
- { 168,-7349 }, { 169,-7349 }, { 170,-7349 }, { 171,-7349 }, { 172,-7349 },
- { 173,-7349 }, { 174,-7349 }, { 175,-7349 }, { 176,-7349 }, { 177,-7349 },
- { 178,-7349 }, { 179,-7349 }, { 180,-7349 }, { 181,-7349 }, { 182,-7349 },
- { 183,-7349 }, { 184,-7349 }, { 185,-7349 }, { 186,-7349 }, { 187,-7349 },
- { 188,-7349 }, { 189,-7349 }, { 190,-7349 }, { 191,-7349 }, { 192,-7349 },
- { 193,-7349 }, { 194,-7349 }, { 195,-7349 }, { 196,-7349 }, { 197,-7349 },
- { 198,-7349 }, { 199,-7349 }, { 200,-7349 }, { 201,-7349 }, { 202,-7349 },
-
- { 203,-7349 }, { 204,-7349 }, { 205,-7349 }, { 206,-7349 }, { 207,-7349 },
- { 208,-7349 }, { 209,-7349 }, { 210,-7349 }, { 211,-7349 }, { 212,-7349 },
- { 213,-7349 }, { 214,-7349 }, { 215,-7349 }, { 216,-7349 }, { 217,-7349 },
- { 218,-7349 }, { 219,-7349 }, { 220,-7349 }, { 221,-7349 }, { 222,-7349 },
- { 223,-7349 }, { 224,-7349 }, { 225,-7349 }, { 226,-7349 }, { 227,-7349 },
- { 228,-7349 }, { 229,-7349 }, { 230,-7349 }, { 231,-7349 }, { 232,-7349 },
- { 233,-7349 }, { 234,-7349 }, { 235,-7349 }, { 236,-7349 }, { 237,-7349 },
- { 238,-7349 }, { 239,-7349 }, { 240,-7349 }, { 241,-7349 }, { 242,-7349 },
- { 243,-7349 }, { 244,-7349 }, { 245,-7349 }, { 246,-7349 }, { 247,-7349 },
- { 248,-7349 }, { 249,-7349 }, { 250,-7349 }, { 251,-7349 }, { 252,-7349 },
-
- { 253,-7349 }, { 254,-7349 }, { 255,-7349 }, { 256,-7349 }, {   0,   0 },
- {   0,4427 }, {   1,-7607 }, {   2,-7607 }, {   3,-7607 }, {   4,-7607 },
- {   5,-7607 }, {   6,-7607 }, {   7,-7607 }, {   8,-7607 }, {   9,1167 },
- {  10,1167 }, {  11,-7607 }, {  12,-7607 }, {  13,1167 }, {  14,-7607 },
- {  15,-7607 }, {  16,-7607 }, {  17,-7607 }, {  18,-7607 }, {  19,-7607 },
- {  20,-7607 }, {  21,-7607 }, {  22,-7607 }, {  23,-7607 }, {  24,-7607 },
- {  25,-7607 }, {  26,-7607 }, {  27,-7607 }, {  28,-7607 }, {  29,-7607 },
- {  30,-7607 }, {  31,-7607 }, {  32,1167 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-7607 }, {  46,-7632 }, {  47,-7632 }, {  48,-7607 }, {  49,-7607 },
- {  50,-7607 }, {  51,-7607 }, {  52,-7607 }, {  53,-7607 }, {  54,-7607 },
- {  55,-7607 }, {  56,-7607 }, {  57,-7607 }, {  58,-7607 }, {   0,   0 },
- {   0,   0 }, {  61,-7632 }, {   0,   0 }, {  63,-7607 }, {   0,   0 },
- {  65,-7607 }, {  66,-7607 }, {  67,-7607 }, {  68,-7607 }, {  69,-7607 },
- {  70,-7607 }, {  71,-7607 }, {  72,-7607 }, {  73,-7607 }, {  74,-7607 },
- {  75,-7607 }, {  76,-7607 }, {  77,-7607 }, {  78,-7607 }, {  79,-7607 },
- {  80,-7607 }, {  81,-7607 }, {  82,-7607 }, {  83,-7607 }, {  84,-7607 },
- {  85,-7607 }, {  86,-7607 }, {  87,-7607 }, {  88,-7607 }, {  89,-7607 },
- {  90,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-7607 }, {   0,   0 }, {  97,-7607 }, {  98,-7607 }, {  99,-7607 },
- { 100,-7607 }, { 101,-7607 }, { 102,-7607 }, { 103,-7607 }, { 104,-7607 },
- { 105,-7607 }, { 106,-7607 }, { 107,-7607 }, { 108,-7607 }, { 109,-7607 },
- { 110,-7607 }, { 111,-7607 }, { 112,-7607 }, { 113,-7607 }, { 114,-7607 },
- { 115,-7607 }, { 116,-7607 }, { 117,-7607 }, { 118,-7607 }, { 119,-7607 },
- { 120,-7607 }, { 121,-7607 }, { 122,-7607 }, {   0,   0 }, { 124,-7632 },
- { 125,1167 }, { 126,1167 }, { 127,-7607 }, { 128,-7607 }, { 129,-7607 },
- { 130,-7607 }, { 131,-7607 }, { 132,-7607 }, { 133,-7607 }, { 134,-7607 },
- { 135,-7607 }, { 136,-7607 }, { 137,-7607 }, { 138,-7607 }, { 139,-7607 },
- { 140,-7607 }, { 141,-7607 }, { 142,-7607 }, { 143,-7607 }, { 144,-7607 },
-
- { 145,-7607 }, { 146,-7607 }, { 147,-7607 }, { 148,-7607 }, { 149,-7607 },
- { 150,-7607 }, { 151,-7607 }, { 152,-7607 }, { 153,-7607 }, { 154,-7607 },
- { 155,-7607 }, { 156,-7607 }, { 157,-7607 }, { 158,-7607 }, { 159,-7607 },
- { 160,-7607 }, { 161,-7607 }, { 162,-7607 }, { 163,-7607 }, { 164,-7607 },
- { 165,-7607 }, { 166,-7607 }, { 167,-7607 }, { 168,-7607 }, { 169,-7607 },
- { 170,-7607 }, { 171,-7607 }, { 172,-7607 }, { 173,-7607 }, { 174,-7607 },
- { 175,-7607 }, { 176,-7607 }, { 177,-7607 }, { 178,-7607 }, { 179,-7607 },
- { 180,-7607 }, { 181,-7607 }, { 182,-7607 }, { 183,-7607 }, { 184,-7607 },
- { 185,-7607 }, { 186,-7607 }, { 187,-7607 }, { 188,-7607 }, { 189,-7607 },
- { 190,-7607 }, { 191,-7607 }, { 192,-7607 }, { 193,-7607 }, { 194,-7607 },
-
- { 195,-7607 }, { 196,-7607 }, { 197,-7607 }, { 198,-7607 }, { 199,-7607 },
- { 200,-7607 }, { 201,-7607 }, { 202,-7607 }, { 203,-7607 }, { 204,-7607 },
- { 205,-7607 }, { 206,-7607 }, { 207,-7607 }, { 208,-7607 }, { 209,-7607 },
- { 210,-7607 }, { 211,-7607 }, { 212,-7607 }, { 213,-7607 }, { 214,-7607 },
- { 215,-7607 }, { 216,-7607 }, { 217,-7607 }, { 218,-7607 }, { 219,-7607 },
- { 220,-7607 }, { 221,-7607 }, { 222,-7607 }, { 223,-7607 }, { 224,-7607 },
- { 225,-7607 }, { 226,-7607 }, { 227,-7607 }, { 228,-7607 }, { 229,-7607 },
- { 230,-7607 }, { 231,-7607 }, { 232,-7607 }, { 233,-7607 }, { 234,-7607 },
- { 235,-7607 }, { 236,-7607 }, { 237,-7607 }, { 238,-7607 }, { 239,-7607 },
- { 240,-7607 }, { 241,-7607 }, { 242,-7607 }, { 243,-7607 }, { 244,-7607 },
-
- { 245,-7607 }, { 246,-7607 }, { 247,-7607 }, { 248,-7607 }, { 249,-7607 },
- { 250,-7607 }, { 251,-7607 }, { 252,-7607 }, { 253,-7607 }, { 254,-7607 },
- { 255,-7607 }, { 256,-7607 }, {   0,   0 }, {   0,4169 }, {   1,-7865 },
- {   2,-7865 }, {   3,-7865 }, {   4,-7865 }, {   5,-7865 }, {   6,-7865 },
- {   7,-7865 }, {   8,-7865 }, {   9, 911 }, {  10, 911 }, {  11,-7865 },
- {  12,-7865 }, {  13, 911 }, {  14,-7865 }, {  15,-7865 }, {  16,-7865 },
- {  17,-7865 }, {  18,-7865 }, {  19,-7865 }, {  20,-7865 }, {  21,-7865 },
- {  22,-7865 }, {  23,-7865 }, {  24,-7865 }, {  25,-7865 }, {  26,-7865 },
- {  27,-7865 }, {  28,-7865 }, {  29,-7865 }, {  30,-7865 }, {  31,-7865 },
- {  32, 911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7865 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7865 }, {  46,-7890 },
- {  47,-7890 }, {  48,-7865 }, {  49,-7865 }, {  50,-7865 }, {  51,-7865 },
- {  52,-7865 }, {  53,-7865 }, {  54,-7865 }, {  55,-7865 }, {  56,-7865 },
- {  57,-7865 }, {  58,-7865 }, {   0,   0 }, {   0,   0 }, {  61,-7890 },
- {   0,   0 }, {  63,-7865 }, {   0,   0 }, {  65,-7865 }, {  66,-7865 },
- {  67,-7865 }, {  68,-7865 }, {  69,-7865 }, {  70,-7865 }, {  71,-7865 },
- {  72,-7865 }, {  73,-7865 }, {  74,-7865 }, {  75,-7865 }, {  76,-7865 },
- {  77,-7865 }, {  78,-7865 }, {  79,-7865 }, {  80,-7865 }, {  81,-7865 },
- {  82,-7865 }, {  83,-7865 }, {  84,-7865 }, {  85,-7865 }, {  86,-7865 },
-
- {  87,-7865 }, {  88,-7865 }, {  89,-7865 }, {  90,-7865 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7865 }, {   0,   0 },
- {  97,-7865 }, {  98,-7865 }, {  99,-7865 }, { 100,-7865 }, { 101,-7865 },
- { 102,-7865 }, { 103,-7865 }, { 104,-7865 }, { 105,-7865 }, { 106,-7865 },
- { 107,-7865 }, { 108,-7865 }, { 109,-7865 }, { 110,-7865 }, { 111,-7865 },
- { 112,-7865 }, { 113,-7865 }, { 114,-7865 }, { 115,-7865 }, { 116,-7865 },
- { 117,-7865 }, { 118,-7865 }, { 119,-7865 }, { 120,-7865 }, { 121,-7865 },
- { 122,-7865 }, {   0,   0 }, { 124,-7890 }, { 125, 911 }, { 126, 911 },
- { 127,-7865 }, { 128,-7865 }, { 129,-7865 }, { 130,-7865 }, { 131,-7865 },
- { 132,-7865 }, { 133,-7865 }, { 134,-7865 }, { 135,-7865 }, { 136,-7865 },
-
- { 137,-7865 }, { 138,-7865 }, { 139,-7865 }, { 140,-7865 }, { 141,-7865 },
- { 142,-7865 }, { 143,-7865 }, { 144,-7865 }, { 145,-7865 }, { 146,-7865 },
- { 147,-7865 }, { 148,-7865 }, { 149,-7865 }, { 150,-7865 }, { 151,-7865 },
- { 152,-7865 }, { 153,-7865 }, { 154,-7865 }, { 155,-7865 }, { 156,-7865 },
- { 157,-7865 }, { 158,-7865 }, { 159,-7865 }, { 160,-7865 }, { 161,-7865 },
- { 162,-7865 }, { 163,-7865 }, { 164,-7865 }, { 165,-7865 }, { 166,-7865 },
- { 167,-7865 }, { 168,-7865 }, { 169,-7865 }, { 170,-7865 }, { 171,-7865 },
- { 172,-7865 }, { 173,-7865 }, { 174,-7865 }, { 175,-7865 }, { 176,-7865 },
- { 177,-7865 }, { 178,-7865 }, { 179,-7865 }, { 180,-7865 }, { 181,-7865 },
- { 182,-7865 }, { 183,-7865 }, { 184,-7865 }, { 185,-7865 }, { 186,-7865 },
-
- { 187,-7865 }, { 188,-7865 }, { 189,-7865 }, { 190,-7865 }, { 191,-7865 },
- { 192,-7865 }, { 193,-7865 }, { 194,-7865 }, { 195,-7865 }, { 196,-7865 },
- { 197,-7865 }, { 198,-7865 }, { 199,-7865 }, { 200,-7865 }, { 201,-7865 },
- { 202,-7865 }, { 203,-7865 }, { 204,-7865 }, { 205,-7865 }, { 206,-7865 },
- { 207,-7865 }, { 208,-7865 }, { 209,-7865 }, { 210,-7865 }, { 211,-7865 },
- { 212,-7865 }, { 213,-7865 }, { 214,-7865 }, { 215,-7865 }, { 216,-7865 },
- { 217,-7865 }, { 218,-7865 }, { 219,-7865 }, { 220,-7865 }, { 221,-7865 },
- { 222,-7865 }, { 223,-7865 }, { 224,-7865 }, { 225,-7865 }, { 226,-7865 },
- { 227,-7865 }, { 228,-7865 }, { 229,-7865 }, { 230,-7865 }, { 231,-7865 },
- { 232,-7865 }, { 233,-7865 }, { 234,-7865 }, { 235,-7865 }, { 236,-7865 },
-
- { 237,-7865 }, { 238,-7865 }, { 239,-7865 }, { 240,-7865 }, { 241,-7865 },
- { 242,-7865 }, { 243,-7865 }, { 244,-7865 }, { 245,-7865 }, { 246,-7865 },
- { 247,-7865 }, { 248,-7865 }, { 249,-7865 }, { 250,-7865 }, { 251,-7865 },
- { 252,-7865 }, { 253,-7865 }, { 254,-7865 }, { 255,-7865 }, { 256,-7865 },
- {   0,   0 }, {   0,3911 }, {   1,-8123 }, {   2,-8123 }, {   3,-8123 },
- {   4,-8123 }, {   5,-8123 }, {   6,-8123 }, {   7,-8123 }, {   8,-8123 },
- {   9,-8148 }, {  10,-8148 }, {  11,-8123 }, {  12,-8123 }, {  13,-8148 },
- {  14,-8123 }, {  15,-8123 }, {  16,-8123 }, {  17,-8123 }, {  18,-8123 },
- {  19,-8123 }, {  20,-8123 }, {  21,-8123 }, {  22,-8123 }, {  23,-8123 },
- {  24,-8123 }, {  25,-8123 }, {  26,-8123 }, {  27,-8123 }, {  28,-8123 },
-
- {  29,-8123 }, {  30,-8123 }, {  31,-8123 }, {  32,-8148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-8123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-8148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8123 }, {  46,-8148 }, {  47,-8148 }, {  48,-8123 },
- {  49,-8123 }, {  50,-8123 }, {  51,-8123 }, {  52,-8123 }, {  53,-8123 },
- {  54,-8123 }, {  55,-8123 }, {  56,-8123 }, {  57,-8123 }, {  58,-8123 },
- {   0,   0 }, {   0,   0 }, {  61,-8148 }, {   0,   0 }, {  63,-8123 },
- {   0,   0 }, {  65,-8123 }, {  66,-8123 }, {  67,-8123 }, {  68,-8123 },
- {  69,-8123 }, {  70,-8123 }, {  71,-8123 }, {  72,-8123 }, {  73,-8123 },
- {  74,-8123 }, {  75,-8123 }, {  76,-8123 }, {  77,-8123 }, {  78,-8123 },
-
- {  79,-8123 }, {  80,-8123 }, {  81,-8123 }, {  82,-8123 }, {  83,-8123 },
- {  84,-8123 }, {  85,-8123 }, {  86,-8123 }, {  87,-8123 }, {  88,-8123 },
- {  89,-8123 }, {  90,-8123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8123 }, {   0,   0 }, {  97,-8123 }, {  98,-8123 },
- {  99,-8123 }, { 100,-8123 }, { 101,-8123 }, { 102, 932 }, { 103,-8123 },
- { 104,-8123 }, { 105,-8123 }, { 106,-8123 }, { 107,-8123 }, { 108,-8123 },
- { 109,-8123 }, { 110,-8123 }, { 111,-8123 }, { 112,-8123 }, { 113,-8123 },
- { 114,-8123 }, { 115,-8123 }, { 116,-8123 }, { 117,-8123 }, { 118,-8123 },
- { 119,-8123 }, { 120,-8123 }, { 121,-8123 }, { 122,-8123 }, {   0,   0 },
- { 124,-8148 }, { 125,-8148 }, { 126,-8148 }, { 127,-8123 }, { 128,-8123 },
-
- { 129,-8123 }, { 130,-8123 }, { 131,-8123 }, { 132,-8123 }, { 133,-8123 },
- { 134,-8123 }, { 135,-8123 }, { 136,-8123 }, { 137,-8123 }, { 138,-8123 },
- { 139,-8123 }, { 140,-8123 }, { 141,-8123 }, { 142,-8123 }, { 143,-8123 },
- { 144,-8123 }, { 145,-8123 }, { 146,-8123 }, { 147,-8123 }, { 148,-8123 },
- { 149,-8123 }, { 150,-8123 }, { 151,-8123 }, { 152,-8123 }, { 153,-8123 },
- { 154,-8123 }, { 155,-8123 }, { 156,-8123 }, { 157,-8123 }, { 158,-8123 },
- { 159,-8123 }, { 160,-8123 }, { 161,-8123 }, { 162,-8123 }, { 163,-8123 },
- { 164,-8123 }, { 165,-8123 }, { 166,-8123 }, { 167,-8123 }, { 168,-8123 },
- { 169,-8123 }, { 170,-8123 }, { 171,-8123 }, { 172,-8123 }, { 173,-8123 },
- { 174,-8123 }, { 175,-8123 }, { 176,-8123 }, { 177,-8123 }, { 178,-8123 },
-
- { 179,-8123 }, { 180,-8123 }, { 181,-8123 }, { 182,-8123 }, { 183,-8123 },
- { 184,-8123 }, { 185,-8123 }, { 186,-8123 }, { 187,-8123 }, { 188,-8123 },
- { 189,-8123 }, { 190,-8123 }, { 191,-8123 }, { 192,-8123 }, { 193,-8123 },
- { 194,-8123 }, { 195,-8123 }, { 196,-8123 }, { 197,-8123 }, { 198,-8123 },
- { 199,-8123 }, { 200,-8123 }, { 201,-8123 }, { 202,-8123 }, { 203,-8123 },
- { 204,-8123 }, { 205,-8123 }, { 206,-8123 }, { 207,-8123 }, { 208,-8123 },
- { 209,-8123 }, { 210,-8123 }, { 211,-8123 }, { 212,-8123 }, { 213,-8123 },
- { 214,-8123 }, { 215,-8123 }, { 216,-8123 }, { 217,-8123 }, { 218,-8123 },
- { 219,-8123 }, { 220,-8123 }, { 221,-8123 }, { 222,-8123 }, { 223,-8123 },
- { 224,-8123 }, { 225,-8123 }, { 226,-8123 }, { 227,-8123 }, { 228,-8123 },
-
- { 229,-8123 }, { 230,-8123 }, { 231,-8123 }, { 232,-8123 }, { 233,-8123 },
- { 234,-8123 }, { 235,-8123 }, { 236,-8123 }, { 237,-8123 }, { 238,-8123 },
- { 239,-8123 }, { 240,-8123 }, { 241,-8123 }, { 242,-8123 }, { 243,-8123 },
- { 244,-8123 }, { 245,-8123 }, { 246,-8123 }, { 247,-8123 }, { 248,-8123 },
- { 249,-8123 }, { 250,-8123 }, { 251,-8123 }, { 252,-8123 }, { 253,-8123 },
- { 254,-8123 }, { 255,-8123 }, { 256,-8123 }, {   0,   0 }, {   0,3653 },
- {   0,   0 }, {   0,3651 }, {   0,   0 }, {   0,3649 }, {   0,   0 },
- {   0,3647 }, {   0,   0 }, {   0,3645 }, {   0,  16 }, {   0,3643 },
- {   0,  26 }, {   0,3641 }, {   0,  17 }, {   0,3639 }, {   0,  36 },
- {   0,3637 }, {   0,   0 }, {   0,3635 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1039 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 },
- { 108, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 115, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
- { 126,   4 }, { 125, 934 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
- {   0,3522 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
-
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1184 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
-
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
-
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
-
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
-
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3264 }, {   0,   1 },
- {   0,3262 }, {   0,  46 }, {   0,3260 }, {   0,  43 }, {   0,3258 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3237 }, {   1,-8797 }, {   2,-8797 }, {   3,-8797 }, {   4,-8797 },
-
- {   5,-8797 }, {   6,-8797 }, {   7,-8797 }, {   8,-8797 }, {   9, 530 },
- {  10, 530 }, {  11,-8797 }, {  12,-8797 }, {  13, 530 }, {  14,-8797 },
- {  15,-8797 }, {  16,-8797 }, {  17,-8797 }, {  18,-8797 }, {  19,-8797 },
- {  20,-8797 }, {  21,-8797 }, {  22,-8797 }, {  23,-8797 }, {  24,-8797 },
- {  25,-8797 }, {  26,-8797 }, {  27,-8797 }, {  28,-8797 }, {  29,-8797 },
- {  30,-8797 }, {  31,-8797 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8797 }, {  46,-8822 }, {  47,-8822 }, {  48,-8797 }, {  49,-8797 },
- {  50,-8797 }, {  51,-8797 }, {  52,-8797 }, {  53,-8797 }, {  54,-8797 },
-
- {  55,-8797 }, {  56,-8797 }, {  57,-8797 }, {  58,-8797 }, {   0,   0 },
- {   0,   0 }, {  61,-8822 }, {   0,   0 }, {  63,-8797 }, {   0,   0 },
- {  65,-8797 }, {  66,-8797 }, {  67,-8797 }, {  68,-8797 }, {  69,-8797 },
- {  70,-8797 }, {  71,-8797 }, {  72,-8797 }, {  73,-8797 }, {  74,-8797 },
- {  75,-8797 }, {  76,-8797 }, {  77,-8797 }, {  78,-8797 }, {  79,-8797 },
- {  80,-8797 }, {  81,-8797 }, {  82,-8797 }, {  83,-8797 }, {  84,-8797 },
- {  85,-8797 }, {  86,-8797 }, {  87,-8797 }, {  88,-8797 }, {  89,-8797 },
- {  90,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8797 }, { 123, 555 }, {  97,-8797 }, {  98,-8797 }, {  99,-8797 },
- { 100,-8797 }, { 101,-8797 }, { 102,-8797 }, { 103,-8797 }, { 104,-8797 },
-
- { 105,-8797 }, { 106,-8797 }, { 107,-8797 }, { 108,-8797 }, { 109,-8797 },
- { 110,-8797 }, { 111,-8797 }, { 112,-8797 }, { 113,-8797 }, { 114,-8797 },
- { 115,-8797 }, { 116,-8797 }, { 117,-8797 }, { 118,-8797 }, { 119,-8797 },
- { 120,-8797 }, { 121,-8797 }, { 122,-8797 }, {   0,   0 }, { 124,-8822 },
- { 125, 530 }, { 126, 530 }, { 127,-8797 }, { 128,-8797 }, { 129,-8797 },
- { 130,-8797 }, { 131,-8797 }, { 132,-8797 }, { 133,-8797 }, { 134,-8797 },
- { 135,-8797 }, { 136,-8797 }, { 137,-8797 }, { 138,-8797 }, { 139,-8797 },
- { 140,-8797 }, { 141,-8797 }, { 142,-8797 }, { 143,-8797 }, { 144,-8797 },
- { 145,-8797 }, { 146,-8797 }, { 147,-8797 }, { 148,-8797 }, { 149,-8797 },
- { 150,-8797 }, { 151,-8797 }, { 152,-8797 }, { 153,-8797 }, { 154,-8797 },
-
- { 155,-8797 }, { 156,-8797 }, { 157,-8797 }, { 158,-8797 }, { 159,-8797 },
- { 160,-8797 }, { 161,-8797 }, { 162,-8797 }, { 163,-8797 }, { 164,-8797 },
- { 165,-8797 }, { 166,-8797 }, { 167,-8797 }, { 168,-8797 }, { 169,-8797 },
- { 170,-8797 }, { 171,-8797 }, { 172,-8797 }, { 173,-8797 }, { 174,-8797 },
- { 175,-8797 }, { 176,-8797 }, { 177,-8797 }, { 178,-8797 }, { 179,-8797 },
- { 180,-8797 }, { 181,-8797 }, { 182,-8797 }, { 183,-8797 }, { 184,-8797 },
- { 185,-8797 }, { 186,-8797 }, { 187,-8797 }, { 188,-8797 }, { 189,-8797 },
- { 190,-8797 }, { 191,-8797 }, { 192,-8797 }, { 193,-8797 }, { 194,-8797 },
- { 195,-8797 }, { 196,-8797 }, { 197,-8797 }, { 198,-8797 }, { 199,-8797 },
- { 200,-8797 }, { 201,-8797 }, { 202,-8797 }, { 203,-8797 }, { 204,-8797 },
-
- { 205,-8797 }, { 206,-8797 }, { 207,-8797 }, { 208,-8797 }, { 209,-8797 },
- { 210,-8797 }, { 211,-8797 }, { 212,-8797 }, { 213,-8797 }, { 214,-8797 },
- { 215,-8797 }, { 216,-8797 }, { 217,-8797 }, { 218,-8797 }, { 219,-8797 },
- { 220,-8797 }, { 221,-8797 }, { 222,-8797 }, { 223,-8797 }, { 224,-8797 },
- { 225,-8797 }, { 226,-8797 }, { 227,-8797 }, { 228,-8797 }, { 229,-8797 },
- { 230,-8797 }, { 231,-8797 }, { 232,-8797 }, { 233,-8797 }, { 234,-8797 },
- { 235,-8797 }, { 236,-8797 }, { 237,-8797 }, { 238,-8797 }, { 239,-8797 },
- { 240,-8797 }, { 241,-8797 }, { 242,-8797 }, { 243,-8797 }, { 244,-8797 },
- { 245,-8797 }, { 246,-8797 }, { 247,-8797 }, { 248,-8797 }, { 249,-8797 },
- { 250,-8797 }, { 251,-8797 }, { 252,-8797 }, { 253,-8797 }, { 254,-8797 },
-
- { 255,-8797 }, { 256,-8797 }, {   0,   0 }, {   0,2979 }, {   1,-9055 },
- {   2,-9055 }, {   3,-9055 }, {   4,-9055 }, {   5,-9055 }, {   6,-9055 },
- {   7,-9055 }, {   8,-9055 }, {   9,-9080 }, {  10,-9080 }, {  11,-9055 },
- {  12,-9055 }, {  13,-9080 }, {  14,-9055 }, {  15,-9055 }, {  16,-9055 },
- {  17,-9055 }, {  18,-9055 }, {  19,-9055 }, {  20,-9055 }, {  21,-9055 },
- {  22,-9055 }, {  23,-9055 }, {  24,-9055 }, {  25,-9055 }, {  26,-9055 },
- {  27,-9055 }, {  28,-9055 }, {  29,-9055 }, {  30,-9055 }, {  31,-9055 },
- {  32,-9080 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9055 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9080 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9055 }, {  46,-9080 },
-
- {  47,-9080 }, {  48,-9055 }, {  49,-9055 }, {  50,-9055 }, {  51,-9055 },
- {  52,-9055 }, {  53,-9055 }, {  54,-9055 }, {  55,-9055 }, {  56,-9055 },
- {  57,-9055 }, {  58,-9055 }, {   0,   0 }, {   0,   0 }, {  61,-9080 },
- {   0,   0 }, {  63,-9055 }, {   0,   0 }, {  65,-9055 }, {  66,-9055 },
- {  67,-9055 }, {  68,-9055 }, {  69,-9055 }, {  70,-9055 }, {  71,-9055 },
- {  72,-9055 }, {  73,-9055 }, {  74,-9055 }, {  75,-9055 }, {  76,-9055 },
- {  77,-9055 }, {  78,-9055 }, {  79,-9055 }, {  80,-9055 }, {  81,-9055 },
- {  82,-9055 }, {  83,-9055 }, {  84,-9055 }, {  85,-9055 }, {  86,-9055 },
- {  87,-9055 }, {  88,-9055 }, {  89,-9055 }, {  90,-9055 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9055 }, {   0,   0 },
-
- {  97,-9055 }, {  98,-9055 }, {  99,-9055 }, { 100,-9055 }, { 101,-9055 },
- { 102,-9055 }, { 103,-9055 }, { 104,-9055 }, { 105, 899 }, { 106,-9055 },
- { 107,-9055 }, { 108,-9055 }, { 109,-9055 }, { 110,-9055 }, { 111,-9055 },
- { 112,-9055 }, { 113,-9055 }, { 114,-9055 }, { 115,-9055 }, { 116,-9055 },
- { 117,-9055 }, { 118,-9055 }, { 119,-9055 }, { 120,-9055 }, { 121,-9055 },
- { 122,-9055 }, {   0,   0 }, { 124,-9080 }, { 125,-9080 }, { 126,-9080 },
- { 127,-9055 }, { 128,-9055 }, { 129,-9055 }, { 130,-9055 }, { 131,-9055 },
- { 132,-9055 }, { 133,-9055 }, { 134,-9055 }, { 135,-9055 }, { 136,-9055 },
- { 137,-9055 }, { 138,-9055 }, { 139,-9055 }, { 140,-9055 }, { 141,-9055 },
- { 142,-9055 }, { 143,-9055 }, { 144,-9055 }, { 145,-9055 }, { 146,-9055 },
-
- { 147,-9055 }, { 148,-9055 }, { 149,-9055 }, { 150,-9055 }, { 151,-9055 },
- { 152,-9055 }, { 153,-9055 }, { 154,-9055 }, { 155,-9055 }, { 156,-9055 },
- { 157,-9055 }, { 158,-9055 }, { 159,-9055 }, { 160,-9055 }, { 161,-9055 },
- { 162,-9055 }, { 163,-9055 }, { 164,-9055 }, { 165,-9055 }, { 166,-9055 },
- { 167,-9055 }, { 168,-9055 }, { 169,-9055 }, { 170,-9055 }, { 171,-9055 },
- { 172,-9055 }, { 173,-9055 }, { 174,-9055 }, { 175,-9055 }, { 176,-9055 },
- { 177,-9055 }, { 178,-9055 }, { 179,-9055 }, { 180,-9055 }, { 181,-9055 },
- { 182,-9055 }, { 183,-9055 }, { 184,-9055 }, { 185,-9055 }, { 186,-9055 },
- { 187,-9055 }, { 188,-9055 }, { 189,-9055 }, { 190,-9055 }, { 191,-9055 },
- { 192,-9055 }, { 193,-9055 }, { 194,-9055 }, { 195,-9055 }, { 196,-9055 },
-
- { 197,-9055 }, { 198,-9055 }, { 199,-9055 }, { 200,-9055 }, { 201,-9055 },
- { 202,-9055 }, { 203,-9055 }, { 204,-9055 }, { 205,-9055 }, { 206,-9055 },
- { 207,-9055 }, { 208,-9055 }, { 209,-9055 }, { 210,-9055 }, { 211,-9055 },
- { 212,-9055 }, { 213,-9055 }, { 214,-9055 }, { 215,-9055 }, { 216,-9055 },
- { 217,-9055 }, { 218,-9055 }, { 219,-9055 }, { 220,-9055 }, { 221,-9055 },
- { 222,-9055 }, { 223,-9055 }, { 224,-9055 }, { 225,-9055 }, { 226,-9055 },
- { 227,-9055 }, { 228,-9055 }, { 229,-9055 }, { 230,-9055 }, { 231,-9055 },
- { 232,-9055 }, { 233,-9055 }, { 234,-9055 }, { 235,-9055 }, { 236,-9055 },
- { 237,-9055 }, { 238,-9055 }, { 239,-9055 }, { 240,-9055 }, { 241,-9055 },
- { 242,-9055 }, { 243,-9055 }, { 244,-9055 }, { 245,-9055 }, { 246,-9055 },
-
- { 247,-9055 }, { 248,-9055 }, { 249,-9055 }, { 250,-9055 }, { 251,-9055 },
- { 252,-9055 }, { 253,-9055 }, { 254,-9055 }, { 255,-9055 }, { 256,-9055 },
- {   0,   0 }, {   0,2721 }, {   0,  28 }, {   0,2719 }, {   0,  22 },
- {   0,2717 }, {   0,   0 }, {   0,2715 }, {   0,   0 }, {   0,2713 },
- {   0,   8 }, {   0,2711 }, {   0,   1 }, {   0,2709 }, {   0,  44 },
- {   0,2707 }, {   0,   0 }, {   0,2705 }, {   0,   0 }, {   0,2703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, 893 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2043 }, {   0,   0 },
- { 101,2049 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
- {   0,   0 }, {   0,2596 }, {   1, 902 }, {   2, 902 }, {   3, 902 },
- {   4, 902 }, {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 },
- {   9, 902 }, {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 },
-
- {  14, 902 }, {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 },
- {  19, 902 }, {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 },
- {  24, 902 }, {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 },
- {  29, 902 }, {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 },
- {  34, 902 }, {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 },
- {  39, 902 }, {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 },
- {  44, 902 }, {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 },
- {  49, 902 }, {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 },
- {  54, 902 }, {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 },
- {  59, 902 }, {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 },
-
- {  64, 902 }, {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 },
- {  69, 902 }, {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 },
- {  74, 902 }, {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 },
- {  79, 902 }, {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 },
- {  84, 902 }, {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 },
- {  89, 902 }, {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 },
- {  94, 902 }, {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 },
- {  99, 902 }, { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 },
- { 104, 902 }, { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 },
- { 109, 902 }, { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 },
-
- { 114, 902 }, { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 },
- { 119, 902 }, { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 },
- { 124, 902 }, { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 },
- { 129, 902 }, { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 },
- { 134, 902 }, { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 },
- { 139, 902 }, { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 },
- { 144, 902 }, { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 },
- { 149, 902 }, { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 },
- { 154, 902 }, { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 },
- { 159, 902 }, { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 },
-
- { 164, 902 }, { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 },
- { 169, 902 }, { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 },
- { 174, 902 }, { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 },
- { 179, 902 }, { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 },
- { 184, 902 }, { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 },
- { 189, 902 }, { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 },
- { 194, 902 }, { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 },
- { 199, 902 }, { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 },
- { 204, 902 }, { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 },
- { 209, 902 }, { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 },
-
- { 214, 902 }, { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 },
- { 219, 902 }, { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 },
- { 224, 902 }, { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 },
- { 229, 902 }, { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 },
- { 234, 902 }, { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 },
- { 239, 902 }, { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 },
- { 244, 902 }, { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 },
- { 249, 902 }, { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 },
- { 254, 902 }, { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2338 },
- {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 },
-
- {   6,1160 }, {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 },
- {  11,1160 }, {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 },
- {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 },
- {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 },
- {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 },
- {  31,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 },
- {   0,   0 }, {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 },
- {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 },
-
- {  56,1160 }, {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 },
- {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 },
- {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 },
- {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 },
- {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 },
- {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 },
- {   0,   0 }, {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 },
- { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 },
-
- { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 },
- { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 },
- { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 },
- { 121,1160 }, { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 },
- { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 },
- { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 },
- { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 },
- { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 },
- { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 },
-
- { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 },
- { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 },
- { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 },
- { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 },
- { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 },
- { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 },
- { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 },
- { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 },
- { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 },
- { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 },
-
- { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 },
- { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 },
- { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 },
- { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 },
- { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 },
- { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 },
- { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 },
- { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 },
- { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 },
- { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 },
-
- { 256,1160 }, {   0,   0 }, {   0,2080 }, {   1,-9954 }, {   2,-9954 },
- {   3,-9954 }, {   4,-9954 }, {   5,-9954 }, {   6,-9954 }, {   7,-9954 },
- {   8,-9954 }, {   9,-9979 }, {  10,-9979 }, {  11,-9954 }, {  12,-9954 },
- {  13,-9979 }, {  14,-9954 }, {  15,-9954 }, {  16,-9954 }, {  17,-9954 },
- {  18,-9954 }, {  19,-9954 }, {  20,-9954 }, {  21,-9954 }, {  22,-9954 },
- {  23,-9954 }, {  24,-9954 }, {  25,-9954 }, {  26,-9954 }, {  27,-9954 },
- {  28,-9954 }, {  29,-9954 }, {  30,-9954 }, {  31,-9954 }, {  32,-9979 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9954 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9954 }, {  46,-9979 }, {  47,-9979 },
-
- {  48,-9954 }, {  49,-9954 }, {  50,-9954 }, {  51,-9954 }, {  52,-9954 },
- {  53,-9954 }, {  54,-9954 }, {  55,-9954 }, {  56,-9954 }, {  57,-9954 },
- {  58,-9954 }, {   0,   0 }, {   0,   0 }, {  61,-9979 }, {   0,   0 },
- {  63,-9954 }, {   0,   0 }, {  65,-9954 }, {  66,-9954 }, {  67,-9954 },
- {  68,-9954 }, {  69,-9954 }, {  70,-9954 }, {  71,-9954 }, {  72,-9954 },
- {  73,-9954 }, {  74,-9954 }, {  75,-9954 }, {  76,-9954 }, {  77,-9954 },
- {  78,-9954 }, {  79,-9954 }, {  80,-9954 }, {  81,-9954 }, {  82,-9954 },
- {  83,-9954 }, {  84,-9954 }, {  85,-9954 }, {  86,-9954 }, {  87,-9954 },
- {  88,-9954 }, {  89,-9954 }, {  90,-9954 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9954 }, {   0,   0 }, {  97,-9954 },
-
- {  98,-9954 }, {  99,-9954 }, { 100,-9954 }, { 101,-9954 }, { 102,-9954 },
- { 103,-9954 }, { 104,-9954 }, { 105,-9954 }, { 106,-9954 }, { 107,-9954 },
- { 108,-9954 }, { 109,-9954 }, { 110,1160 }, { 111,-9954 }, { 112,-9954 },
- { 113,-9954 }, { 114,-9954 }, { 115,-9954 }, { 116,-9954 }, { 117,-9954 },
- { 118,-9954 }, { 119,-9954 }, { 120,-9954 }, { 121,-9954 }, { 122,-9954 },
- {   0,   0 }, { 124,-9979 }, { 125,-9979 }, { 126,-9979 }, { 127,-9954 },
- { 128,-9954 }, { 129,-9954 }, { 130,-9954 }, { 131,-9954 }, { 132,-9954 },
- { 133,-9954 }, { 134,-9954 }, { 135,-9954 }, { 136,-9954 }, { 137,-9954 },
- { 138,-9954 }, { 139,-9954 }, { 140,-9954 }, { 141,-9954 }, { 142,-9954 },
- { 143,-9954 }, { 144,-9954 }, { 145,-9954 }, { 146,-9954 }, { 147,-9954 },
-
- { 148,-9954 }, { 149,-9954 }, { 150,-9954 }, { 151,-9954 }, { 152,-9954 },
- { 153,-9954 }, { 154,-9954 }, { 155,-9954 }, { 156,-9954 }, { 157,-9954 },
- { 158,-9954 }, { 159,-9954 }, { 160,-9954 }, { 161,-9954 }, { 162,-9954 },
- { 163,-9954 }, { 164,-9954 }, { 165,-9954 }, { 166,-9954 }, { 167,-9954 },
- { 168,-9954 }, { 169,-9954 }, { 170,-9954 }, { 171,-9954 }, { 172,-9954 },
- { 173,-9954 }, { 174,-9954 }, { 175,-9954 }, { 176,-9954 }, { 177,-9954 },
- { 178,-9954 }, { 179,-9954 }, { 180,-9954 }, { 181,-9954 }, { 182,-9954 },
- { 183,-9954 }, { 184,-9954 }, { 185,-9954 }, { 186,-9954 }, { 187,-9954 },
- { 188,-9954 }, { 189,-9954 }, { 190,-9954 }, { 191,-9954 }, { 192,-9954 },
- { 193,-9954 }, { 194,-9954 }, { 195,-9954 }, { 196,-9954 }, { 197,-9954 },
-
- { 198,-9954 }, { 199,-9954 }, { 200,-9954 }, { 201,-9954 }, { 202,-9954 },
- { 203,-9954 }, { 204,-9954 }, { 205,-9954 }, { 206,-9954 }, { 207,-9954 },
- { 208,-9954 }, { 209,-9954 }, { 210,-9954 }, { 211,-9954 }, { 212,-9954 },
- { 213,-9954 }, { 214,-9954 }, { 215,-9954 }, { 216,-9954 }, { 217,-9954 },
- { 218,-9954 }, { 219,-9954 }, { 220,-9954 }, { 221,-9954 }, { 222,-9954 },
- { 223,-9954 }, { 224,-9954 }, { 225,-9954 }, { 226,-9954 }, { 227,-9954 },
- { 228,-9954 }, { 229,-9954 }, { 230,-9954 }, { 231,-9954 }, { 232,-9954 },
- { 233,-9954 }, { 234,-9954 }, { 235,-9954 }, { 236,-9954 }, { 237,-9954 },
- { 238,-9954 }, { 239,-9954 }, { 240,-9954 }, { 241,-9954 }, { 242,-9954 },
- { 243,-9954 }, { 244,-9954 }, { 245,-9954 }, { 246,-9954 }, { 247,-9954 },
+ {  99,-14178 }, { 100,-14178 }, { 101,-14178 }, { 102,-14178 }, { 103,-14178 },
+ { 104,-14178 }, { 105,-14178 }, { 106,-14178 }, { 107,-14178 }, { 108,-14178 },
+ { 109,-14178 }, { 110,-14178 }, { 111,-14178 }, { 112,-14178 }, { 113,-14178 },
+ { 114,-14178 }, { 115,-14178 }, { 116,-14178 }, { 117,-14178 }, { 118,-14178 },
+ { 119,-14178 }, { 120,-14178 }, { 121,-14178 }, { 122,-14178 }, { 125, 260 },
+ { 124,-14203 }, { 125, 260 }, { 126, 260 }, { 127,-14178 }, { 128,-14178 },
+ { 129,-14178 }, { 130,-14178 }, { 131,-14178 }, { 132,-14178 }, { 133,-14178 },
+ { 134,-14178 }, { 135,-14178 }, { 136,-14178 }, { 137,-14178 }, { 138,-14178 },
+ { 139,-14178 }, { 140,-14178 }, { 141,-14178 }, { 142,-14178 }, { 143,-14178 },
+ { 144,-14178 }, { 145,-14178 }, { 146,-14178 }, { 147,-14178 }, { 148,-14178 },
+
+ { 149,-14178 }, { 150,-14178 }, { 151,-14178 }, { 152,-14178 }, { 153,-14178 },
+ { 154,-14178 }, { 155,-14178 }, { 156,-14178 }, { 157,-14178 }, { 158,-14178 },
+ { 159,-14178 }, { 160,-14178 }, { 161,-14178 }, { 162,-14178 }, { 163,-14178 },
+ { 164,-14178 }, { 165,-14178 }, { 166,-14178 }, { 167,-14178 }, { 168,-14178 },
+ { 169,-14178 }, { 170,-14178 }, { 171,-14178 }, { 172,-14178 }, { 173,-14178 },
+ { 174,-14178 }, { 175,-14178 }, { 176,-14178 }, { 177,-14178 }, { 178,-14178 },
+ { 179,-14178 }, { 180,-14178 }, { 181,-14178 }, { 182,-14178 }, { 183,-14178 },
+ { 184,-14178 }, { 185,-14178 }, { 186,-14178 }, { 187,-14178 }, { 188,-14178 },
+ { 189,-14178 }, { 190,-14178 }, { 191,-14178 }, { 192,-14178 }, { 193,-14178 },
+ { 194,-14178 }, { 195,-14178 }, { 196,-14178 }, { 197,-14178 }, { 198,-14178 },
+
+ { 199,-14178 }, { 200,-14178 }, { 201,-14178 }, { 202,-14178 }, { 203,-14178 },
+ { 204,-14178 }, { 205,-14178 }, { 206,-14178 }, { 207,-14178 }, { 208,-14178 },
+ { 209,-14178 }, { 210,-14178 }, { 211,-14178 }, { 212,-14178 }, { 213,-14178 },
+ { 214,-14178 }, { 215,-14178 }, { 216,-14178 }, { 217,-14178 }, { 218,-14178 },
+ { 219,-14178 }, { 220,-14178 }, { 221,-14178 }, { 222,-14178 }, { 223,-14178 },
+ { 224,-14178 }, { 225,-14178 }, { 226,-14178 }, { 227,-14178 }, { 228,-14178 },
+ { 229,-14178 }, { 230,-14178 }, { 231,-14178 }, { 232,-14178 }, { 233,-14178 },
+ { 234,-14178 }, { 235,-14178 }, { 236,-14178 }, { 237,-14178 }, { 238,-14178 },
+ { 239,-14178 }, { 240,-14178 }, { 241,-14178 }, { 242,-14178 }, { 243,-14178 },
+ { 244,-14178 }, { 245,-14178 }, { 246,-14178 }, { 247,-14178 }, { 248,-14178 },
 
- { 248,-9954 }, { 249,-9954 }, { 250,-9954 }, { 251,-9954 }, { 252,-9954 },
- { 253,-9954 }, { 254,-9954 }, { 255,-9954 }, { 256,-9954 }, {   0,  25 },
- {   0,1822 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 },
- {  10,1162 }, {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 },
+ { 249,-14178 }, { 250,-14178 }, { 251,-14178 }, { 252,-14178 }, { 253,-14178 },
+ { 254,-14178 }, { 255,-14178 }, { 256,-14178 }, {   0,   0 }, {   0, 262 },
+ {   0,  46 }, {   0, 260 }, {   0,   9 }, {   0, 258 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4600,381 +5557,38 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1164 }, { 126,1166 }, {   0,   0 }, {   0,1694 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
-
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
-
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
-
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
-
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
-
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,1436 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
-
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
- {  44,-258 }, {  45, 791 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
-
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
-
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
-
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
-
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
-
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1178 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
- {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
-
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
-
- {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 535 },
- {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
 
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-11114 }, {   2,-11114 },
- {   3,-11114 }, {   4,-11114 }, {   5,-11114 }, {   6,-11114 }, {   7,-11114 },
- {   8,-11114 }, {   9,-11139 }, {  10,-11139 }, {  11,-11114 }, {  12,-11114 },
- {  13,-11139 }, {  14,-11114 }, {  15,-11114 }, {  16,-11114 }, {  17,-11114 },
- {  18,-11114 }, {  19,-11114 }, {  20,-11114 }, {  21,-11114 }, {  22,-11114 },
- {  23,-11114 }, {  24,-11114 }, {  25,-11114 }, {  26,-11114 }, {  27,-11114 },
- {  28,-11114 }, {  29,-11114 }, {  30,-11114 }, {  31,-11114 }, {  32,-11139 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11114 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11139 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11114 }, {  46,-11139 }, {  47,-11139 },
- {  48,-11114 }, {  49,-11114 }, {  50,-11114 }, {  51,-11114 }, {  52,-11114 },
- {  53,-11114 }, {  54,-11114 }, {  55,-11114 }, {  56,-11114 }, {  57,-11114 },
- {  58,-11114 }, {   0,   0 }, {   0,   0 }, {  61,-11139 }, {   0,   0 },
- {  63,-11114 }, {   0,   0 }, {  65,-11114 }, {  66,-11114 }, {  67,-11114 },
- {  68,-11114 }, {  69,-11114 }, {  70,-11114 }, {  71,-11114 }, {  72,-11114 },
- {  73,-11114 }, {  74,-11114 }, {  75,-11114 }, {  76,-11114 }, {  77,-11114 },
- {  78,-11114 }, {  79,-11114 }, {  80,-11114 }, {  81,-11114 }, {  82,-11114 },
- {  83,-11114 }, {  84,-11114 }, {  85,-11114 }, {  86,-11114 }, {  87,-11114 },
-
- {  88,-11114 }, {  89,-11114 }, {  90,-11114 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11114 }, {   0,   0 }, {  97,-11114 },
- {  98,-11114 }, {  99,-11114 }, { 100,-11114 }, { 101, 404 }, { 102,-11114 },
- { 103,-11114 }, { 104,-11114 }, { 105,-11114 }, { 106,-11114 }, { 107,-11114 },
- { 108,-11114 }, { 109,-11114 }, { 110,-11114 }, { 111,-11114 }, { 112,-11114 },
- { 113,-11114 }, { 114,-11114 }, { 115,-11114 }, { 116,-11114 }, { 117,-11114 },
- { 118,-11114 }, { 119,-11114 }, { 120,-11114 }, { 121,-11114 }, { 122,-11114 },
- {   0,   0 }, { 124,-11139 }, { 125,-11139 }, { 126,-11139 }, { 127,-11114 },
- { 128,-11114 }, { 129,-11114 }, { 130,-11114 }, { 131,-11114 }, { 132,-11114 },
- { 133,-11114 }, { 134,-11114 }, { 135,-11114 }, { 136,-11114 }, { 137,-11114 },
-
- { 138,-11114 }, { 139,-11114 }, { 140,-11114 }, { 141,-11114 }, { 142,-11114 },
- { 143,-11114 }, { 144,-11114 }, { 145,-11114 }, { 146,-11114 }, { 147,-11114 },
- { 148,-11114 }, { 149,-11114 }, { 150,-11114 }, { 151,-11114 }, { 152,-11114 },
- { 153,-11114 }, { 154,-11114 }, { 155,-11114 }, { 156,-11114 }, { 157,-11114 },
- { 158,-11114 }, { 159,-11114 }, { 160,-11114 }, { 161,-11114 }, { 162,-11114 },
- { 163,-11114 }, { 164,-11114 }, { 165,-11114 }, { 166,-11114 }, { 167,-11114 },
- { 168,-11114 }, { 169,-11114 }, { 170,-11114 }, { 171,-11114 }, { 172,-11114 },
- { 173,-11114 }, { 174,-11114 }, { 175,-11114 }, { 176,-11114 }, { 177,-11114 },
- { 178,-11114 }, { 179,-11114 }, { 180,-11114 }, { 181,-11114 }, { 182,-11114 },
- { 183,-11114 }, { 184,-11114 }, { 185,-11114 }, { 186,-11114 }, { 187,-11114 },
-
- { 188,-11114 }, { 189,-11114 }, { 190,-11114 }, { 191,-11114 }, { 192,-11114 },
- { 193,-11114 }, { 194,-11114 }, { 195,-11114 }, { 196,-11114 }, { 197,-11114 },
- { 198,-11114 }, { 199,-11114 }, { 200,-11114 }, { 201,-11114 }, { 202,-11114 },
- { 203,-11114 }, { 204,-11114 }, { 205,-11114 }, { 206,-11114 }, { 207,-11114 },
- { 208,-11114 }, { 209,-11114 }, { 210,-11114 }, { 211,-11114 }, { 212,-11114 },
- { 213,-11114 }, { 214,-11114 }, { 215,-11114 }, { 216,-11114 }, { 217,-11114 },
- { 218,-11114 }, { 219,-11114 }, { 220,-11114 }, { 221,-11114 }, { 222,-11114 },
- { 223,-11114 }, { 224,-11114 }, { 225,-11114 }, { 226,-11114 }, { 227,-11114 },
- { 228,-11114 }, { 229,-11114 }, { 230,-11114 }, { 231,-11114 }, { 232,-11114 },
- { 233,-11114 }, { 234,-11114 }, { 235,-11114 }, { 236,-11114 }, { 237,-11114 },
-
- { 238,-11114 }, { 239,-11114 }, { 240,-11114 }, { 241,-11114 }, { 242,-11114 },
- { 243,-11114 }, { 244,-11114 }, { 245,-11114 }, { 246,-11114 }, { 247,-11114 },
- { 248,-11114 }, { 249,-11114 }, { 250,-11114 }, { 251,-11114 }, { 252,-11114 },
- { 253,-11114 }, { 254,-11114 }, { 255,-11114 }, { 256,-11114 }, {   0,   0 },
- {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 }, {   0, 658 },
- {   0,   0 }, {   0, 656 }, {   0,  25 }, {   0, 654 }, {   9,   2 },
- {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0, 645 }, {   0,   0 }, {   0, 643 },
- {   0,  23 }, {   0, 641 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 608 },
- {   0,   0 }, {   0, 606 }, {   0,   0 }, {   0, 604 }, {   0,  12 },
- {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0, 599 }, {   0,  45 },
- {   0, 597 }, {   0,   9 }, {   0, 595 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  17 },
-
- {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,  37 }, { 126,  39 }, { 125,  39 },
- {   0,   0 }, {   0, 516 }, {   1,-11518 }, {   2,-11518 }, {   3,-11518 },
- {   4,-11518 }, {   5,-11518 }, {   6,-11518 }, {   7,-11518 }, {   8,-11518 },
- {   9,-11543 }, {  10,-11543 }, {  11,-11518 }, {  12,-11518 }, {  13,-11543 },
- {  14,-11518 }, {  15,-11518 }, {  16,-11518 }, {  17,-11518 }, {  18,-11518 },
- {  19,-11518 }, {  20,-11518 }, {  21,-11518 }, {  22,-11518 }, {  23,-11518 },
- {  24,-11518 }, {  25,-11518 }, {  26,-11518 }, {  27,-11518 }, {  28,-11518 },
- {  29,-11518 }, {  30,-11518 }, {  31,-11518 }, {  32,-11543 }, { 125,   6 },
-
- {   0,   0 }, { 125,  -2 }, {  36,-11518 }, { 125,   5 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11543 }, { 125,   4 }, {   0,   0 },
- {   0,   0 }, {  45,-11518 }, {  46,-11543 }, {  47,-11543 }, {  48,-11518 },
- {  49,-11518 }, {  50,-11518 }, {  51,-11518 }, {  52,-11518 }, {  53,-11518 },
- {  54,-11518 }, {  55,-11518 }, {  56,-11518 }, {  57,-11518 }, {  58,-11518 },
- {   0,   0 }, {   0,   0 }, {  61,-11543 }, {   0,   0 }, {  63,-11518 },
- {   0,   0 }, {  65,-11518 }, {  66,-11518 }, {  67,-11518 }, {  68,-11518 },
- {  69,-11518 }, {  70,-11518 }, {  71,-11518 }, {  72,-11518 }, {  73,-11518 },
- {  74,-11518 }, {  75,-11518 }, {  76,-11518 }, {  77,-11518 }, {  78,-11518 },
- {  79,-11518 }, {  80,-11518 }, {  81,-11518 }, {  82,-11518 }, {  83,-11518 },
-
- {  84,-11518 }, {  85,-11518 }, {  86,-11518 }, {  87,-11518 }, {  88,-11518 },
- {  89,-11518 }, {  90,-11518 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11518 }, {   0,   0 }, {  97,-11518 }, {  98,-11518 },
- {  99,-11518 }, { 100, 258 }, { 101,-11518 }, { 102,-11518 }, { 103,-11518 },
- { 104,-11518 }, { 105,-11518 }, { 106,-11518 }, { 107,-11518 }, { 108,-11518 },
- { 109,-11518 }, { 110,-11518 }, { 111,-11518 }, { 112,-11518 }, { 113,-11518 },
- { 114,-11518 }, { 115,-11518 }, { 116,-11518 }, { 117,-11518 }, { 118,-11518 },
- { 119,-11518 }, { 120,-11518 }, { 121,-11518 }, { 122,-11518 }, {   0,   0 },
- { 124,-11543 }, { 125,-11543 }, { 126,-11543 }, { 127,-11518 }, { 128,-11518 },
- { 129,-11518 }, { 130,-11518 }, { 131,-11518 }, { 132,-11518 }, { 133,-11518 },
-
- { 134,-11518 }, { 135,-11518 }, { 136,-11518 }, { 137,-11518 }, { 138,-11518 },
- { 139,-11518 }, { 140,-11518 }, { 141,-11518 }, { 142,-11518 }, { 143,-11518 },
- { 144,-11518 }, { 145,-11518 }, { 146,-11518 }, { 147,-11518 }, { 148,-11518 },
- { 149,-11518 }, { 150,-11518 }, { 151,-11518 }, { 152,-11518 }, { 153,-11518 },
- { 154,-11518 }, { 155,-11518 }, { 156,-11518 }, { 157,-11518 }, { 158,-11518 },
- { 159,-11518 }, { 160,-11518 }, { 161,-11518 }, { 162,-11518 }, { 163,-11518 },
- { 164,-11518 }, { 165,-11518 }, { 166,-11518 }, { 167,-11518 }, { 168,-11518 },
- { 169,-11518 }, { 170,-11518 }, { 171,-11518 }, { 172,-11518 }, { 173,-11518 },
- { 174,-11518 }, { 175,-11518 }, { 176,-11518 }, { 177,-11518 }, { 178,-11518 },
- { 179,-11518 }, { 180,-11518 }, { 181,-11518 }, { 182,-11518 }, { 183,-11518 },
-
- { 184,-11518 }, { 185,-11518 }, { 186,-11518 }, { 187,-11518 }, { 188,-11518 },
- { 189,-11518 }, { 190,-11518 }, { 191,-11518 }, { 192,-11518 }, { 193,-11518 },
- { 194,-11518 }, { 195,-11518 }, { 196,-11518 }, { 197,-11518 }, { 198,-11518 },
- { 199,-11518 }, { 200,-11518 }, { 201,-11518 }, { 202,-11518 }, { 203,-11518 },
- { 204,-11518 }, { 205,-11518 }, { 206,-11518 }, { 207,-11518 }, { 208,-11518 },
- { 209,-11518 }, { 210,-11518 }, { 211,-11518 }, { 212,-11518 }, { 213,-11518 },
- { 214,-11518 }, { 215,-11518 }, { 216,-11518 }, { 217,-11518 }, { 218,-11518 },
- { 219,-11518 }, { 220,-11518 }, { 221,-11518 }, { 222,-11518 }, { 223,-11518 },
- { 224,-11518 }, { 225,-11518 }, { 226,-11518 }, { 227,-11518 }, { 228,-11518 },
- { 229,-11518 }, { 230,-11518 }, { 231,-11518 }, { 232,-11518 }, { 233,-11518 },
-
- { 234,-11518 }, { 235,-11518 }, { 236,-11518 }, { 237,-11518 }, { 238,-11518 },
- { 239,-11518 }, { 240,-11518 }, { 241,-11518 }, { 242,-11518 }, { 243,-11518 },
- { 244,-11518 }, { 245,-11518 }, { 246,-11518 }, { 247,-11518 }, { 248,-11518 },
- { 249,-11518 }, { 250,-11518 }, { 251,-11518 }, { 252,-11518 }, { 253,-11518 },
- { 254,-11518 }, { 255,-11518 }, { 256,-11518 }, {   0,   0 }, {   0, 258 },
- {   1,-11776 }, {   2,-11776 }, {   3,-11776 }, {   4,-11776 }, {   5,-11776 },
- {   6,-11776 }, {   7,-11776 }, {   8,-11776 }, {   9,-339 }, {  10,-339 },
- {  11,-11776 }, {  12,-11776 }, {  13,-339 }, {  14,-11776 }, {  15,-11776 },
- {  16,-11776 }, {  17,-11776 }, {  18,-11776 }, {  19,-11776 }, {  20,-11776 },
- {  21,-11776 }, {  22,-11776 }, {  23,-11776 }, {  24,-11776 }, {  25,-11776 },
-
- {  26,-11776 }, {  27,-11776 }, {  28,-11776 }, {  29,-11776 }, {  30,-11776 },
- {  31,-11776 }, {  32,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11776 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11776 },
- {  46,-11801 }, {  47,-11801 }, {  48,-11776 }, {  49,-11776 }, {  50,-11776 },
- {  51,-11776 }, {  52,-11776 }, {  53,-11776 }, {  54,-11776 }, {  55,-11776 },
- {  56,-11776 }, {  57,-11776 }, {  58,-11776 }, {   0,   0 }, {   0,   0 },
- {  61,-11801 }, {   0,   0 }, {  63,-11776 }, {   0,   0 }, {  65,-11776 },
- {  66,-11776 }, {  67,-11776 }, {  68,-11776 }, {  69,-11776 }, {  70,-11776 },
- {  71,-11776 }, {  72,-11776 }, {  73,-11776 }, {  74,-11776 }, {  75,-11776 },
-
- {  76,-11776 }, {  77,-11776 }, {  78,-11776 }, {  79,-11776 }, {  80,-11776 },
- {  81,-11776 }, {  82,-11776 }, {  83,-11776 }, {  84,-11776 }, {  85,-11776 },
- {  86,-11776 }, {  87,-11776 }, {  88,-11776 }, {  89,-11776 }, {  90,-11776 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11776 },
- {   0,   0 }, {  97,-11776 }, {  98,-11776 }, {  99,-11776 }, { 100,-11776 },
- { 101,-11776 }, { 102,-11776 }, { 103,-11776 }, { 104,-11776 }, { 105,-11776 },
- { 106,-11776 }, { 107,-11776 }, { 108,-11776 }, { 109,-11776 }, { 110,-11776 },
- { 111,-11776 }, { 112,-11776 }, { 113,-11776 }, { 114,-11776 }, { 115,-11776 },
- { 116,-11776 }, { 117,-11776 }, { 118,-11776 }, { 119,-11776 }, { 120,-11776 },
- { 121,-11776 }, { 122,-11776 }, {   0,   0 }, { 124,-11801 }, { 125,-339 },
-
- { 126,-339 }, { 127,-11776 }, { 128,-11776 }, { 129,-11776 }, { 130,-11776 },
- { 131,-11776 }, { 132,-11776 }, { 133,-11776 }, { 134,-11776 }, { 135,-11776 },
- { 136,-11776 }, { 137,-11776 }, { 138,-11776 }, { 139,-11776 }, { 140,-11776 },
- { 141,-11776 }, { 142,-11776 }, { 143,-11776 }, { 144,-11776 }, { 145,-11776 },
- { 146,-11776 }, { 147,-11776 }, { 148,-11776 }, { 149,-11776 }, { 150,-11776 },
- { 151,-11776 }, { 152,-11776 }, { 153,-11776 }, { 154,-11776 }, { 155,-11776 },
- { 156,-11776 }, { 157,-11776 }, { 158,-11776 }, { 159,-11776 }, { 160,-11776 },
- { 161,-11776 }, { 162,-11776 }, { 163,-11776 }, { 164,-11776 }, { 165,-11776 },
- { 166,-11776 }, { 167,-11776 }, { 168,-11776 }, { 169,-11776 }, { 170,-11776 },
- { 171,-11776 }, { 172,-11776 }, { 173,-11776 }, { 174,-11776 }, { 175,-11776 },
-
- { 176,-11776 }, { 177,-11776 }, { 178,-11776 }, { 179,-11776 }, { 180,-11776 },
- { 181,-11776 }, { 182,-11776 }, { 183,-11776 }, { 184,-11776 }, { 185,-11776 },
- { 186,-11776 }, { 187,-11776 }, { 188,-11776 }, { 189,-11776 }, { 190,-11776 },
- { 191,-11776 }, { 192,-11776 }, { 193,-11776 }, { 194,-11776 }, { 195,-11776 },
- { 196,-11776 }, { 197,-11776 }, { 198,-11776 }, { 199,-11776 }, { 200,-11776 },
- { 201,-11776 }, { 202,-11776 }, { 203,-11776 }, { 204,-11776 }, { 205,-11776 },
- { 206,-11776 }, { 207,-11776 }, { 208,-11776 }, { 209,-11776 }, { 210,-11776 },
- { 211,-11776 }, { 212,-11776 }, { 213,-11776 }, { 214,-11776 }, { 215,-11776 },
- { 216,-11776 }, { 217,-11776 }, { 218,-11776 }, { 219,-11776 }, { 220,-11776 },
- { 221,-11776 }, { 222,-11776 }, { 223,-11776 }, { 224,-11776 }, { 225,-11776 },
-
- { 226,-11776 }, { 227,-11776 }, { 228,-11776 }, { 229,-11776 }, { 230,-11776 },
- { 231,-11776 }, { 232,-11776 }, { 233,-11776 }, { 234,-11776 }, { 235,-11776 },
- { 236,-11776 }, { 237,-11776 }, { 238,-11776 }, { 239,-11776 }, { 240,-11776 },
- { 241,-11776 }, { 242,-11776 }, { 243,-11776 }, { 244,-11776 }, { 245,-11776 },
- { 246,-11776 }, { 247,-11776 }, { 248,-11776 }, { 249,-11776 }, { 250,-11776 },
- { 251,-11776 }, { 252,-11776 }, { 253,-11776 }, { 254,-11776 }, { 255,-11776 },
- { 256,-11776 }, { 257,  52 }, {   1,   0 },    };
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 257,  53 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4995,11 +5609,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
-    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
+    0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
+    1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -5101,9 +5715,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5104 "handlebars.lex.c"
+#line 5719 "handlebars.lex.c"
 
-#line 5106 "handlebars.lex.c"
+#line 5721 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5382,11 +5996,11 @@ YY_DECL
 		}
 
 	{
-#line 137 "handlebars.l"
+#line 140 "handlebars.l"
 
 
 
-#line 5389 "handlebars.lex.c"
+#line 6004 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5453,7 +6067,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 140 "handlebars.l"
+#line 143 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5466,7 +6080,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 149 "handlebars.l"
+#line 152 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5475,7 +6089,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 155 "handlebars.l"
+#line 158 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5490,7 +6104,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 166 "handlebars.l"
+#line 169 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5501,7 +6115,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 174 "handlebars.l"
+#line 177 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5510,7 +6124,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 180 "handlebars.l"
+#line 183 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5518,7 +6132,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "handlebars.l"
+#line 188 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5532,7 +6146,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 191 "handlebars.l"
+#line 194 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5541,7 +6155,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "handlebars.l"
+#line 200 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5559,7 +6173,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 211 "handlebars.l"
+#line 214 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5568,7 +6182,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 217 "handlebars.l"
+#line 220 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5577,9 +6191,10 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 222 "handlebars.l"
+#line 225 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
+										// (up to the first "--}}" or "--~}}")
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
   										//yytext += 5, yyleng -= 5;
@@ -5590,7 +6205,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 235 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5599,35 +6214,46 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 14:
+/* rule 14 can match eol */
+YY_RULE_SETUP
+#line 242 "handlebars.l"
+{
+										// Unterminated comment
+										yy_pop_state(yyscanner);
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+	YY_BREAK
+case 15:
 YY_RULE_SETUP
-#line 238 "handlebars.l"
+#line 249 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
 										return OPEN_SEXPR;
 									}
 	YY_BREAK
-case 15:
+case 16:
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 255 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
 										return CLOSE_SEXPR;
 									}
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 250 "handlebars.l"
+#line 261 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
 										return OPEN_RAW_BLOCK;
 									}
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 267 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5636,45 +6262,46 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 275 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 281 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 287 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 293 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 22:
+case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5682,10 +6309,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 295 "handlebars.l"
+#line 306 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5693,45 +6320,46 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 313 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 25:
+case 26:
+/* rule 26 can match eol */
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 319 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 325 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 331 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5739,9 +6367,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 333 "handlebars.l"
+#line 344 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5749,68 +6377,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 351 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 357 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 363 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 34:
+/* rule 34 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 369 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 375 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 35:
-/* rule 35 can match eol */
+case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 381 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 386 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5818,9 +6446,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5828,10 +6456,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 39:
+/* rule 39 can match eol */
 YY_RULE_SETUP
-#line 389 "handlebars.l"
+#line 400 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5841,10 +6469,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 409 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5854,122 +6482,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 418 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 41:
-/* rule 41 can match eol */
+case 42:
+/* rule 42 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 424 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
-#line 419 "handlebars.l"
+#line 430 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
-/* rule 43 can match eol */
+case 44:
+/* rule 44 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 436 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 442 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 448 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 454 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 456 "handlebars.l"
+#line 467 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-#line 462 "handlebars.l"
+#line 473 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5980,9 +6608,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 50:
+case 51:
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 483 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -5995,18 +6623,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 478 "handlebars.l"
+#line 489 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 494 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6009 "handlebars.lex.c"
+#line 6638 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7214,6 +7842,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 483 "handlebars.l"
+#line 494 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index e85c698..6382dd6 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -2,9 +2,9 @@
 #define handlebars_yy_HEADER_H 1
 #define handlebars_yy_IN_HEADER 1
 
-#line 5 "handlebars.lex.h"
+#line 6 "handlebars.lex.h"
 
-#line 7 "handlebars.lex.h"
+#line 8 "handlebars.lex.h"
 
 #define  YY_INT_ALIGNED long int
 
@@ -733,9 +733,9 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 483 "handlebars.l"
+#line 494 "handlebars.l"
 
 
-#line 739 "handlebars.lex.h"
+#line 740 "handlebars.lex.h"
 #undef handlebars_yy_IN_HEADER
 #endif /* handlebars_yy_HEADER_H */
-- 
2.43.0


From da7144cdc83c62affba108439fe7a970b68d063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 49/73] fix: call registered helpers in strict mode instead of
 reporting their name as a missing field

---
 src/handlebars_vm.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 793982e..b5fcbbd 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1113,6 +1113,28 @@ missing:
     HANDLEBARS_VALUE_UNDECL(rv);
 }
 
+//! Whether the value an opcode looks up is only the fallback of a call that will find a helper of that name
+HBS_ATTR_NONNULL_ALL
+static inline bool is_helper_lookup(struct handlebars_vm * vm, struct handlebars_opcode * opcode)
+{
+    struct handlebars_opcode * next = opcode + 1;
+    struct handlebars_string * name;
+    HANDLEBARS_VALUE_DECL(rv);
+    bool found;
+
+    if( next->type == handlebars_opcode_type_invoke_ambiguous ) {
+        name = next->op1.data.string.string;
+    } else if( next->type == handlebars_opcode_type_invoke_helper && next->op3.data.boolval ) {
+        name = next->op2.data.string.string;
+    } else {
+        name = NULL;
+    }
+
+    found = name != NULL && lookup_helper(vm, name, rv) != NULL;
+    HANDLEBARS_VALUE_UNDECL(rv);
+    return found;
+}
+
 ACCEPT_FUNCTION(lookup_on_context)
 {
     HANDLEBARS_VALUE_DECL(empty_value);
@@ -1144,7 +1166,7 @@ ACCEPT_FUNCTION(lookup_on_context)
         enum handlebars_value_type type = handlebars_value_get_type(value);
         if( type == HANDLEBARS_VALUE_TYPE_MAP || type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
             value = lookup_member(value, arr->string, rv2);
-        } else if( (vm->flags & handlebars_compiler_flag_assume_objects) || (is_strict && !is_last) ) {
+        } else if( ((vm->flags & handlebars_compiler_flag_assume_objects) && !is_helper_lookup(vm, opcode)) || (is_strict && !is_last) ) {
             goto done_and_err;
         } else {
             goto done_and_null;
@@ -1159,7 +1181,7 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     if( value == NULL ) {
         done_and_null:
-        if( require_terminal ) {
+        if( require_terminal && !is_helper_lookup(vm, opcode) ) {
             done_and_err:
             handlebars_throw_ex(
                 CONTEXT,
-- 
2.43.0


From 5740670a43b2bbea807807849bca2c680df45fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 50/73] fix: do not indent the output of a partial that
 produced no line

---
 src/handlebars_string.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index e875d6d..1df2865 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -810,7 +810,10 @@ struct handlebars_string * handlebars_string_indent_append(
         str_len--;
     }
 
-    append_to_string = handlebars_string_append_str(context, append_to_string, indent_str);
+    // (no lines, nothing to indent)
+    if( input_string->len > 0 ) {
+        append_to_string = handlebars_string_append_str(context, append_to_string, indent_str);
+    }
 
     for( i = 0; i < str_len; i++ ) {
         if( str[i] == '\n' ) {
-- 
2.43.0


From 06868181288472a3e35e90d0a8280f398248cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 51/73] fix: ~ in the tags of an empty block crashed the
 whitespace control

---
 src/handlebars_whitespace.c | 8 ++++++++
 src/handlebars_whitespace.h | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e50071c..d76c00b 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -114,6 +114,10 @@ bool handlebars_whitespace_omit_left(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->last ? statements->last->data : NULL;
     } else {
@@ -151,6 +155,10 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->first ? statements->first->data : NULL;
     } else {
diff --git a/src/handlebars_whitespace.h b/src/handlebars_whitespace.h
index 6df8627..20821ec 100644
--- a/src/handlebars_whitespace.h
+++ b/src/handlebars_whitespace.h
@@ -49,13 +49,13 @@ bool handlebars_whitespace_omit_left(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 bool handlebars_whitespace_omit_right(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 void handlebars_whitespace_accept(
     struct handlebars_parser * parser,
-- 
2.43.0


From 1eabbbdfdd51fa551405ed04fd5b26f28afe23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 52/73] fix: computed partial names with explicit partial
 contexts

---
 src/handlebars_compiler.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index c66799d..c55d39a 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -817,6 +817,7 @@ static inline void _handlebars_compiler_accept_partial(
 ) {
     size_t count = 0;
     bool is_dynamic = false;
+    bool push_undefined = false;
     long programGuid = -1;
     struct handlebars_ast_node * tmp;
 
@@ -837,10 +838,7 @@ static inline void _handlebars_compiler_accept_partial(
         );
     } else if( !params || !handlebars_ast_list_count(params) ) {
     	if( compiler->flags & handlebars_compiler_flag_explicit_partial_context ) {
-            struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
-            handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
-            __PUSH(opcode);
-    		//__OPS(push_literal, "undefined";
+            push_undefined = true;
     	} else {
 			if( !params ) {
 				params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
@@ -863,6 +861,13 @@ static inline void _handlebars_compiler_accept_partial(
     	handlebars_compiler_accept(compiler, name);
     }
 
+    // the context comes after a computed name
+    if( push_undefined ) {
+        struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
+        handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
+        __PUSH(opcode);
+    }
+
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
     handlebars_compiler_setup_full_mustache_params(compiler, node, programGuid, -1, 1);
-- 
2.43.0


From 2a3728d712fbf03898f16e6ce133e57fbe0ce075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 53/73] fix: whitespace control of else chains and of inverted
 sections with an else

~ in a tag of an else chain also stripped the end of another branch, the closing
tag of a chain was taken as standing alone according to another branch, and ~ in
the opening tag of an inverted section with an else stripped the else branch.
---
 src/handlebars_ast.h         |  2 +
 src/handlebars_ast_helpers.c |  9 ++--
 src/handlebars_whitespace.c  | 90 +++++++++++++++++++++++++-----------
 3 files changed, 70 insertions(+), 31 deletions(-)

diff --git a/src/handlebars_ast.h b/src/handlebars_ast.h
index 14bd920..966d8c9 100644
--- a/src/handlebars_ast.h
+++ b/src/handlebars_ast.h
@@ -304,6 +304,8 @@ struct handlebars_ast_node_block {
     unsigned int inverse_strip;
     unsigned int close_strip;
     bool is_decorator;
+    //! The branch written first is in inverse, the one after its else, if any, in program
+    bool is_inverted;
 };
 
 struct handlebars_ast_node_comment {
diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index b9c6115..7dbee0e 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -95,13 +95,15 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_block(
         }
 
         if( inverse_and_program->node.inverse.chained ) {
+            // the chain ends where this block ends
             struct handlebars_ast_list * statements;
-            struct handlebars_ast_node * tmp;
-            if( (tmp = inverse_and_program->node.inverse.program) &&
-                (statements = tmp->node.program.statements) &&
+            struct handlebars_ast_node * tmp = inverse_and_program->node.inverse.program;
+            while( tmp && tmp->node.program.chained &&
+                    (statements = tmp->node.program.statements) &&
                     statements->first && (tmp = statements->first->data) &&
                     tmp->type == HANDLEBARS_AST_NODE_BLOCK ) {
                 tmp->node.block.close_strip = close->strip;
+                tmp = tmp->node.block.inverse;
             }
         }
 
@@ -131,6 +133,7 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_block(
                 open_block->strip, inverse_strip, close ? close->strip : 0, locinfo);
 
     ast_node->node.block.is_decorator = is_decorator;
+    ast_node->node.block.is_inverted = inverted != 0;
     return ast_node;
 }
 
diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index d76c00b..87d7ce9 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -197,6 +197,49 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
 
 
 
+// The branch of a block written first
+static inline struct handlebars_ast_node * handlebars_whitespace_block_first(struct handlebars_ast_node * block)
+{
+    if( !block->node.block.program || (block->node.block.is_inverted && block->node.block.inverse) ) {
+        return block->node.block.inverse;
+    }
+    return block->node.block.program;
+}
+
+// The branch of a block written after its else, or null
+static inline struct handlebars_ast_node * handlebars_whitespace_block_else(struct handlebars_ast_node * block)
+{
+    if( !block->node.block.program || !block->node.block.inverse ) {
+        return NULL;
+    }
+    return block->node.block.is_inverted ? block->node.block.program : block->node.block.inverse;
+}
+
+// The block an else chain continues with, or null
+static inline struct handlebars_ast_node * handlebars_whitespace_chained_block(struct handlebars_ast_node * program)
+{
+    struct handlebars_ast_list * statements;
+
+    if( program && program->node.program.chained && (statements = program->node.program.statements) &&
+            statements->first && statements->first->data && statements->first->data->type == HANDLEBARS_AST_NODE_BLOCK ) {
+        return statements->first->data;
+    }
+    return NULL;
+}
+
+// The branch of a block right before its closing tag
+static inline struct handlebars_ast_node * handlebars_whitespace_block_last(struct handlebars_ast_node * block)
+{
+    struct handlebars_ast_node * last = handlebars_whitespace_block_else(block);
+    struct handlebars_ast_node * chained;
+
+    while( (chained = handlebars_whitespace_chained_block(last)) ) {
+        block = chained;
+        last = handlebars_whitespace_block_else(block);
+    }
+    return last ? last : handlebars_whitespace_block_first(block);
+}
+
 static inline void handlebars_whitespace_accept_program(struct handlebars_parser * parser,
         struct handlebars_ast_node * program)
 {
@@ -262,12 +305,10 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && open_standalone ) {
             if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
-                if( current->node.block.program ) {
-                    assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
-                } else if( current->node.block.inverse ) {
-                    assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_right(current->node.block.inverse->node.program.statements, NULL, 0);
+                struct handlebars_ast_node * first = handlebars_whitespace_block_first(current);
+                if( first ) {
+                    assert(first->type == HANDLEBARS_AST_NODE_PROGRAM);
+                    handlebars_whitespace_omit_right(first->node.program.statements, NULL, 0);
                 }
             } else if( current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK && current->node.partial_block.program ) {
                 handlebars_whitespace_omit_right(current->node.partial_block.program->node.program.statements, NULL, 0);
@@ -277,12 +318,10 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
             if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
-                if( current->node.block.inverse ) {
-                    assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
-                } else if( current->node.block.program ) {
-                    assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_left(current->node.block.program->node.program.statements, NULL, 0);
+                struct handlebars_ast_node * last = handlebars_whitespace_block_last(current);
+                if( last ) {
+                    assert(last->type == HANDLEBARS_AST_NODE_PROGRAM);
+                    handlebars_whitespace_omit_left(last->node.program.statements, NULL, 0);
                 }
             } else if( current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK && current->node.partial_block.program ) {
                 handlebars_whitespace_omit_left(current->node.partial_block.program->node.program.statements, NULL, 0);
@@ -322,7 +361,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * program;
     struct handlebars_ast_node * inverse;
     struct handlebars_ast_node * firstInverse;
-    struct handlebars_ast_node * lastInverse;
+    struct handlebars_ast_node * last;
     unsigned strip = 0;
     bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
@@ -333,28 +372,23 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
         handlebars_whitespace_accept(parser, block->node.block.inverse);
     }
 
-    program = (block->node.block.program ? block->node.block.program : block->node.block.inverse);
-    inverse = (block->node.block.program ? block->node.block.inverse : NULL);
-    firstInverse = lastInverse = inverse;
-
+    program = handlebars_whitespace_block_first(block);
+    inverse = handlebars_whitespace_block_else(block);
+    firstInverse = inverse;
     if( inverse && inverse->node.program.chained ) {
-        firstInverse = _handlebars_whitespace_get_program(inverse, 1);
-
-        // Should this also allow inverse node?
-        while( lastInverse &&
-                lastInverse->type == HANDLEBARS_AST_NODE_PROGRAM &&
-                lastInverse->node.program.chained ) {
-            lastInverse = _handlebars_whitespace_get_program(lastInverse, 0);
-            assert(lastInverse == NULL || lastInverse->type != HANDLEBARS_AST_NODE_INVERSE);
+        firstInverse = handlebars_whitespace_chained_block(inverse);
+        if( firstInverse ) {
+            firstInverse = handlebars_whitespace_block_first(firstInverse);
         }
     }
+    last = handlebars_whitespace_block_last(block);
 
     strip |= (block->node.block.open_strip & handlebars_ast_strip_flag_left);
     strip |= (block->node.block.close_strip & handlebars_ast_strip_flag_right);
     if( program && handlebars_whitespace_is_next_whitespace(program->node.program.statements, NULL, 0) ) {
         strip |= handlebars_ast_strip_flag_open_standalone;
     }
-    if( (program || firstInverse) && handlebars_whitespace_is_prev_whitespace((firstInverse ? firstInverse : program)->node.program.statements, NULL, 0) ) {
+    if( last && handlebars_whitespace_is_prev_whitespace(last->node.program.statements, NULL, 0) ) {
         strip |= handlebars_ast_strip_flag_close_standalone;
     }
     strip |= handlebars_ast_strip_flag_set;
@@ -373,8 +407,8 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
         if( firstInverse && inverse_strip & handlebars_ast_strip_flag_right ) {
             handlebars_whitespace_omit_right(firstInverse->node.program.statements, NULL, 1);
         }
-        if( lastInverse && block->node.block.close_strip & handlebars_ast_strip_flag_left ) {
-            handlebars_whitespace_omit_left(lastInverse->node.program.statements, NULL, 1);
+        if( last && block->node.block.close_strip & handlebars_ast_strip_flag_left ) {
+            handlebars_whitespace_omit_left(last->node.program.statements, NULL, 1);
         }
 
         // Find standalone else statments
-- 
2.43.0


From 8934333e16236e459260b56ce5e9aa3138a9b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 54/73] fix: shared memory cache: an expired entry is replaced
 by a new one, and an entry without a place is not counted

---
 src/handlebars_cache_mmap.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5c856d7..7aca92a 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -200,14 +200,11 @@ static inline struct table_entry * table_find(struct handlebars_cache_mmap * int
     return intern->table[offset];
 }
 
-static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
+static inline bool table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
-    }
+    intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
+    return intern->table[offset] != NULL;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
@@ -281,6 +278,11 @@ static int cache_gc(struct handlebars_cache * cache)
 }
 
 
+static inline bool is_stale(struct handlebars_cache * cache, struct handlebars_module * module, time_t now)
+{
+    return module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age);
+}
+
 static struct handlebars_module * cache_find(struct handlebars_cache * cache, struct handlebars_string * key)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
@@ -311,7 +313,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     module = entry->data;
 
     // Check if it's too old or wrong version
-    if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
+    if( is_stale(cache, module, now) ) {
         protect(cache, false);
         table_unset(intern, key);
         intern->table_entries--;
@@ -344,6 +346,9 @@ static void cache_add(
 ) {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     struct table_entry entry;
+    time_t now;
+
+    time(&now);
 
     // Currently resetting
     if( GET(intern->in_reset) ) {
@@ -364,8 +369,14 @@ static void cache_add(
     if( found ) {
         if( !handlebars_string_eq(found->key, key) ) {
             intern->collisions++;
+            goto error;
         }
-        goto error;
+        if( !is_stale(cache, found->data, now) ) {
+            goto error;
+        }
+        // The old entry would never be found again
+        table_unset(intern, key);
+        intern->table_entries--;
     }
 
     // Copy key
@@ -375,7 +386,7 @@ static void cache_add(
     entry.data = append(intern, (void *) module, module->size);
 
     // Check for failure
-    if( unlikely(!entry.key || !entry.data) ) {
+    if( unlikely(!entry.key || !entry.data || !table_set(intern, &entry)) ) {
         protect(cache, true);
         unlock(cache);
         cache_reset(cache);
@@ -386,7 +397,6 @@ static void cache_add(
     handlebars_module_patch_pointers(entry.data);
 
     // Finish;
-    table_set(intern, &entry);
     intern->table_entries++;
 
 error:
-- 
2.43.0


From 3637b5ce37b22c15272eab3fa6dc7ab36ed08a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:28 +0000
Subject: [PATCH 55/73] fix: converting a parsed template back to source keeps
 strips, chains, parameters, escapes and literals

---
 src/handlebars_ast_printer.c | 530 +++++++++++++++++++----------------
 1 file changed, 296 insertions(+), 234 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 8eafb94..183cf44 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -104,7 +104,6 @@ struct handlebars_ast_printer_context {
     int error;
     struct handlebars_string * output;
     bool in_partial;
-    bool in_raw_block;
 };
 
 
@@ -535,48 +534,79 @@ struct handlebars_string * handlebars_ast_print(struct handlebars_context * cont
 #define CONTEXT HBSCTX(ctx->ctx)
 
 static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx);
-static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only);
 
-static void _handlebars_ast_to_string_list(struct handlebars_ast_list * ast_list, struct handlebars_ast_printer_context * ctx)
+//! Append text outside of tags, such that it is read back as the same text
+static void _handlebars_ast_to_string_text(struct handlebars_string * text, bool before_tag, struct handlebars_ast_printer_context * ctx)
 {
-    struct handlebars_ast_list_item * item;
-    struct handlebars_ast_list_item * tmp;
-
-    if( unlikely(ast_list == NULL) ) {
-        return;
+    const char * p = hbs_str_val(text);
+    const char * end = p + hbs_str_len(text);
+
+    while( p < end ) {
+        const char * start = p;
+        if( *p == '{' ) {
+            // Braces are escaped by groups of two or three
+            size_t run;
+            while( p < end && *p == '{' ) {
+                p++;
+            }
+            run = p - start;
+            if( run % 3 == 1 ) {
+                __APPENDL(start, 1);
+                start++;
+                run--;
+            }
+            while( run > 0 ) {
+                // (the shorter group goes first, it would join the tag that follows the text)
+                size_t n = run % 3 == 0 ? 3 : 2;
+                __APPENDS("\\");
+                __APPENDL(start, n);
+                start += n;
+                run -= n;
+            }
+        } else {
+            while( p < end && *p != '{' ) {
+                p++;
+            }
+            __APPENDL(start, (size_t) (p - start));
+        }
     }
 
-    handlebars_ast_list_foreach(ast_list, item, tmp) {
-        __PRINT(item->data);
+    // A backslash in front of a tag would escape it
+    if( before_tag && hbs_str_len(text) > 0 && *(end - 1) == '\\' ) {
+        __APPENDS("\\");
     }
 }
 
-static void _handlebars_ast_to_string_path_params_hash(
-    struct handlebars_ast_node * path, struct handlebars_ast_list * params,
-    struct handlebars_ast_node * hash, struct handlebars_ast_printer_context * ctx)
+static void _handlebars_ast_to_string_list(struct handlebars_ast_list * ast_list, bool before_tag, struct handlebars_ast_printer_context * ctx)
 {
-    int depth = ctx->padding++;
+    struct handlebars_ast_list_item * item;
+    struct handlebars_ast_list_item * tmp;
 
-    if (depth > 0) {
-        __APPENDS("(");
+    if( unlikely(ast_list == NULL) ) {
+        return;
     }
 
-    if( path ) {
-        __PRINT(path);
+    handlebars_ast_list_foreach(ast_list, item, tmp) {
+        if( item->data->type == HANDLEBARS_AST_NODE_CONTENT ) {
+            _handlebars_ast_to_string_text(item->data->node.content.original, before_tag || item->next, ctx);
+        } else {
+            __PRINT(item->data);
+        }
     }
+}
 
+static void _handlebars_ast_to_string_params_hash(
+    struct handlebars_ast_list * params,
+    struct handlebars_ast_node * hash,
+    struct handlebars_ast_printer_context * ctx
+) {
     if( params ) {
-        struct handlebars_ast_list * ast_list = params;
         struct handlebars_ast_list_item * item;
         struct handlebars_ast_list_item * tmp;
 
-        __APPENDS(" ");
-
-        handlebars_ast_list_foreach(ast_list, item, tmp) {
+        handlebars_ast_list_foreach(params, item, tmp) {
+            __APPENDS(" ");
             __PRINT(item->data);
-            if( item->next ) {
-                __APPENDS(" ");
-            }
         }
     }
 
@@ -584,22 +614,115 @@ static void _handlebars_ast_to_string_path_params_hash(
         __APPENDS(" ");
         __PRINT(hash);
     }
+}
+
+//! Append an identifier, in brackets if necessary
+static void _handlebars_ast_to_string_id(struct handlebars_string * id, bool literal, struct handlebars_ast_printer_context * ctx)
+{
+    const char * p = hbs_str_val(id);
+    const char * end = p + hbs_str_len(id);
+
+    if( literal ) {
+        __APPENDS("[");
+    } else if( hbs_str_len(id) >= 2 && *p == '[' && *(end - 1) == ']' ) {
+        // is still in its brackets
+        literal = true;
+        __APPENDS("[");
+        p++;
+        end--;
+    }
 
-    if (depth > 0) {
-        __APPENDS(")");
+    if( !literal ) {
+        __APPEND_STR(id);
+        return;
     }
 
-    ctx->padding--;
+    for( ; p < end; p++ ) {
+        if( *p == ']' ) {
+            __APPENDS("\\");
+        }
+        __APPENDL(p, 1);
+    }
+    __APPENDS("]");
 }
 
+static bool is_plain_id(struct handlebars_string * id)
+{
+    const char * p = hbs_str_val(id);
+    const char * end = p + hbs_str_len(id);
 
+    if( p == end ) {
+        return false;
+    }
+    for( ; p < end; p++ ) {
+        if( *p == '\0' || strchr(" \r\n\t!\"#%&'()*+,./;<=>@[\\]^`{|}~", *p) ) {
+            return false;
+        }
+    }
+    return true;
+}
 
+static bool is_number(struct handlebars_string * id)
+{
+    const char * p = hbs_str_val(id);
+    if( *p == '-' ) {
+        p++;
+    }
+    p += strspn(p, "0123456789");
+    if( *p == '.' ) {
+        p++;
+    }
+    p += strspn(p, "0123456789");
+    return hbs_str_len(id) > 0 && *p == '\0';
+}
 
-static void _handlebars_ast_to_string_program(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    _handlebars_ast_to_string_list(ast_node->node.program.statements, ctx);
+    struct handlebars_ast_list * ast_list = ast_node->node.path.parts;
+    struct handlebars_string * original = ast_node->node.path.original;
+    struct handlebars_ast_list_item * item;
+    struct handlebars_ast_list_item * tmp;
+    size_t tail_len = 0;
+
+    if( ast_list ) {
+        handlebars_ast_list_foreach(ast_list, item, tmp) {
+            if( item->data->node.path_segment.separator ) {
+                tail_len += hbs_str_len(item->data->node.path_segment.separator);
+            }
+            tail_len += hbs_str_len(item->data->node.path_segment.part);
+        }
+    }
+
+    if( original && hbs_str_len(original) >= tail_len ) {
+        // What comes before the segments, e.g. "../" or "@"
+        __APPENDL(hbs_str_val(original), hbs_str_len(original) - tail_len);
+    } else if( ast_node->node.path.data ) {
+        __APPENDS("@");
+    } else if( !ast_list || handlebars_ast_list_count(ast_list) <= 0 ) {
+        __APPENDS(".");
+    }
+
+    if( !ast_list ) {
+        return;
+    }
+
+    handlebars_ast_list_foreach(ast_list, item, tmp) {
+        struct handlebars_ast_node_path_segment * segment = &item->data->node.path_segment;
+        bool literal;
+        if( segment->original ) {
+            literal = !handlebars_string_eq(segment->original, segment->part);
+        } else {
+            // was a string or a number
+            literal = !is_plain_id(segment->part) && !is_number(segment->part);
+        }
+        __APPEND_STR(segment->separator);
+        _handlebars_ast_to_string_id(segment->part, literal, ctx);
+    }
 }
 
+
+
+
 static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
     unsigned char unescaped = ast_node->node.mustache.unescaped;
@@ -611,11 +734,11 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
     } else if (unescaped == 3) {
         __APPENDS("&");
     }
-	if( ast_node->node.mustache.is_decorator ) {
-		__APPENDS("*");
-	}
-    _handlebars_ast_to_string_path_params_hash(ast_node->node.mustache.path,
-            ast_node->node.mustache.params, ast_node->node.mustache.hash, ctx);
+    if( ast_node->node.mustache.is_decorator ) {
+        __APPENDS("*");
+    }
+    __PRINT(ast_node->node.mustache.path);
+    _handlebars_ast_to_string_params_hash(ast_node->node.mustache.params, ast_node->node.mustache.hash, ctx);
     if (unescaped == 1) {
         __APPENDS("}");
     }
@@ -623,181 +746,167 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
     __APPENDS("}}");
 }
 
-static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-{
-    bool is_raw = ast_node->type == HANDLEBARS_AST_NODE_RAW_BLOCK;
-    if (is_raw) {
-        ctx->in_raw_block = 1;
-    }
-
-    // Use an inverted section
-    if (ast_node->node.block.inverse && !ast_node->node.block.program) {
-        if (is_raw) { __APPENDS("{{"); }
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
-        __APPENDS("^");
-        _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path,
-                ast_node->node.block.params, ast_node->node.block.hash, ctx);
-        __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
-        __APPENDS("}}");
-        if (is_raw) { __APPENDS("}}"); }
-
-        __PRINT(ast_node->node.block.inverse);
-
-        if (is_raw) { __APPENDS("{{"); }
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
-        __APPENDS("/");
-        _handlebars_ast_to_string_path(ast_node->node.block.path, ctx, 1);
-        __APPEND_STRIP_RIGHT(ast_node->node.block.close_strip);
-        __APPENDS("}}");
-        if (is_raw) { __APPENDS("}}"); }
-        goto done;
-    }
-
-
-    // Sexpr
-    if (is_raw) {
-        __APPENDS("{{{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
-    } else {
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
-        __APPENDS("#");
-    }
-	if( ast_node->node.block.is_decorator ) {
-		__APPENDS("*");
-	}
-    _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path,
-            ast_node->node.block.params, ast_node->node.block.hash, ctx);
-
-    if (ast_node->node.block.program) {
-        if( ast_node->node.block.program->node.program.block_param1 ) {
-            __APPENDS("as |");
-            __APPEND_STR(ast_node->node.block.program->node.program.block_param1);
-            if( ast_node->node.block.program->node.program.block_param2 ) {
-                __APPENDS(" ");
-                __APPEND_STR(ast_node->node.block.program->node.program.block_param2);
-            }
-            __APPENDS("|");
+//! Append what follows the opening of a block: the program that comes first and an inverse, if any
+static void _handlebars_ast_to_string_block_open(
+    struct handlebars_ast_node * ast_node,
+    struct handlebars_ast_node * program,
+    struct handlebars_ast_node * inverse,
+    struct handlebars_ast_printer_context * ctx
+) {
+    // The rest of the opening tag
+    __PRINT(ast_node->node.block.path);
+    _handlebars_ast_to_string_params_hash(ast_node->node.block.params, ast_node->node.block.hash, ctx);
+    if( program && program->node.program.block_param1 ) {
+        __APPENDS(" as |");
+        _handlebars_ast_to_string_id(program->node.program.block_param1, false, ctx);
+        if( program->node.program.block_param2 ) {
+            __APPENDS(" ");
+            _handlebars_ast_to_string_id(program->node.program.block_param2, false, ctx);
         }
+        __APPENDS("|");
     }
-
     __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
     __APPENDS("}}");
-    if (is_raw) { __APPENDS("}}"); }
 
     // Program
-    if( ast_node->node.block.program ) {
-        __PRINT(ast_node->node.block.program);
+    if( program ) {
+        _handlebars_ast_to_string_list(program->node.program.statements, true, ctx);
     }
 
     // Inverse
-    if( ast_node->node.block.inverse ) {
+    if( inverse ) {
+        struct handlebars_ast_list * statements = inverse->node.program.statements;
+        struct handlebars_ast_node * chained = NULL;
+        if( inverse->node.program.chained && statements && statements->first &&
+                statements->first->data->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            chained = statements->first->data;
+        }
+
         __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.inverse_strip);
+        if( chained ) {
+            __APPEND_STRIP_LEFT(chained->node.block.open_strip);
+            __APPENDS("else ");
+            _handlebars_ast_to_string_block_open(chained, chained->node.block.program, chained->node.block.inverse, ctx);
+        } else {
+            __APPEND_STRIP_LEFT(ast_node->node.block.inverse_strip);
+            __APPENDS("^");
+            __APPEND_STRIP_RIGHT(ast_node->node.block.inverse_strip);
+            __APPENDS("}}");
+            _handlebars_ast_to_string_list(statements, true, ctx);
+        }
+    }
+}
+
+static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+{
+    struct handlebars_ast_node * program = ast_node->node.block.program;
+    struct handlebars_ast_node * inverse = ast_node->node.block.inverse;
+
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
+    if( ast_node->node.block.is_inverted || (inverse && !program) ) {
         __APPENDS("^");
-        __APPEND_STRIP_RIGHT(ast_node->node.block.inverse_strip);
-        __APPENDS("}}");
-        __PRINT(ast_node->node.block.inverse);
+        _handlebars_ast_to_string_block_open(ast_node, inverse, program, ctx);
+    } else {
+        __APPENDS("#");
+        if( ast_node->node.block.is_decorator ) {
+            __APPENDS("*");
+        }
+        _handlebars_ast_to_string_block_open(ast_node, program, inverse, ctx);
     }
 
     // end
-    if (is_raw) { __APPENDS("{{"); }
     __APPENDS("{{");
     __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
     __APPENDS("/");
-    _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path, NULL, NULL, ctx);
-    // _handlebars_ast_to_string_path(ast_node->node.block.path, ctx, 1);
+    __PRINT(ast_node->node.block.path);
     __APPEND_STRIP_RIGHT(ast_node->node.block.close_strip);
     __APPENDS("}}");
-    if (is_raw) { __APPENDS("}}"); }
+}
+
+static void _handlebars_ast_to_string_raw_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+{
+    struct handlebars_ast_node * program = ast_node->node.raw_block.program;
+
+    __APPENDS("{{{{");
+    __PRINT(ast_node->node.raw_block.path);
+    _handlebars_ast_to_string_params_hash(ast_node->node.raw_block.params, ast_node->node.raw_block.hash, ctx);
+    __APPENDS("}}}}");
 
-done:
-    ctx->in_raw_block = 0;
+    // The content is not escaped
+    if( program && program->node.program.statements ) {
+        struct handlebars_ast_list_item * item;
+        struct handlebars_ast_list_item * tmp;
+
+        handlebars_ast_list_foreach(program->node.program.statements, item, tmp) {
+            if( item->data->type == HANDLEBARS_AST_NODE_CONTENT ) {
+                __APPEND_STR(item->data->node.content.original);
+            }
+        }
+    }
+
+    __APPENDS("{{{{/");
+    __APPEND_STR(handlebars_ast_node_get_string_mode_value(ctx->ctx, ast_node->node.raw_block.path));
+    __APPENDS("}}}}");
 }
 
 static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    ctx->in_partial = true;
-
     assert(ast_node->node.partial.name != NULL);
 
     __APPENDS("{{");
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS(">");
-
     __PRINT(ast_node->node.partial.name);
-
-   if( ast_node->node.partial.params != NULL &&
-            handlebars_ast_list_count(ast_node->node.partial.params) ) {
-        __APPENDS(" ");
-        __PRINT(ast_node->node.partial.params->first->data);
-    }
-
-    if( ast_node->node.partial.hash ) {
-        __APPENDS(" ");
-        __PRINT(ast_node->node.partial.hash);
-    }
-
+    _handlebars_ast_to_string_params_hash(ast_node->node.partial.params, ast_node->node.partial.hash, ctx);
     __APPEND_STRIP_RIGHT(ast_node->strip);
     __APPENDS("}}");
-
-    ctx->in_partial = false;
 }
 
 
 static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    ctx->in_partial = true;
+    struct handlebars_ast_node * path = ast_node->node.partial_block.path;
 
-    // Sexpr
-    __APPENDS("{{#> ");
-    _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
-    if( ast_node->node.partial_block.params ) {
-        _handlebars_ast_to_string_list(ast_node->node.partial_block.params, ctx);
-    }
-    if( ast_node->node.partial_block.hash ) {
-    	__APPENDS(" ");
-        _handlebars_ast_to_string(ast_node->node.partial_block.hash, ctx);
-    }
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
+    __APPENDS("#>");
+    __PRINT(path);
+    _handlebars_ast_to_string_params_hash(ast_node->node.partial_block.params, ast_node->node.partial_block.hash, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.open_strip);
     __APPENDS("}}");
 
     // Program
     if( ast_node->node.partial_block.program ) {
-        __PRINT(ast_node->node.partial_block.program);
+        _handlebars_ast_to_string_list(ast_node->node.partial_block.program->node.program.statements, true, ctx);
     }
 
     // end
-    __APPENDS("{{/");
-    _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
-    __APPENDS("}}");
-
-    ctx->in_partial = false;
-}
-
-static void _handlebars_ast_to_string_content(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-{
-    // Need to escape {{ if not in a raw block
-    if (ctx->in_raw_block) {
-        __APPEND_STR(ast_node->node.content.original);
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
+    __APPENDS("/");
+    if( path->type == HANDLEBARS_AST_NODE_SEXPR ) {
+        __APPENDS("\"\""); // has no name
     } else {
-        struct handlebars_string *escaped = handlebars_str_replace(CONTEXT, ast_node->node.content.original, HBS_STRL("{{"), HBS_STRL("\\{{"));
-        __APPEND_STR(escaped);
-        handlebars_string_delref(escaped);
+        __PRINT(path);
     }
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.close_strip);
+    __APPENDS("}}");
 }
 
 static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
+    struct handlebars_string * value = ast_node->node.comment.value;
+
     __APPENDS("{{");
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS("!");
     if (ast_node->node.comment.is_long) {
         __APPENDS("--");
     }
-    __APPEND_STR(ast_node->node.comment.value);
-    if (ast_node->node.comment.is_long) {
+    __APPEND_STR(value);
+    if (ast_node->node.comment.is_long || (hbs_str_len(value) > 0 && hbs_str_val(value)[hbs_str_len(value) - 1] == '-')) {
+        // (up to two dashes at the end of any comment are not part of it)
         __APPENDS("--");
     }
     __APPEND_STRIP_RIGHT(ast_node->strip);
@@ -806,44 +915,36 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
 
 static void _handlebars_ast_to_string_sexpr(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    // Sexpr
-    _handlebars_ast_to_string_path_params_hash(ast_node->node.sexpr.path,
-            ast_node->node.sexpr.params, ast_node->node.sexpr.hash, ctx);
+    __APPENDS("(");
+    __PRINT(ast_node->node.sexpr.path);
+    _handlebars_ast_to_string_params_hash(ast_node->node.sexpr.params, ast_node->node.sexpr.hash, ctx);
+    __APPENDS(")");
 }
 
 static void _handlebars_ast_to_string_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    char quote[2] = {0, 0};
-    if (ast_node->node.string.is_single_quoted) {
-        quote[0] = '\'';
-    } else {
-        quote[0] = '"';
+    struct handlebars_string * value = ast_node->node.string.value;
+    const char quote = ast_node->node.string.is_single_quoted ? '\'' : '"';
+    const char * end = hbs_str_val(value) + hbs_str_len(value);
+    const char * p;
+
+    __APPENDL(&quote, 1);
+    for( p = hbs_str_val(value); p < end; p++ ) {
+        if( *p == '\\' ) {
+            if( p + 1 == end || *(p + 1) == quote ) {
+                // must not be taken for the escape of a quote
+                __APPENDS("\\134");
+            } else {
+                __APPENDS("\\\\");
+            }
+        } else {
+            if( *p == quote ) {
+                __APPENDS("\\");
+            }
+            __APPENDL(p, 1);
+        }
     }
-    __APPEND(quote);
-    struct handlebars_string *tmp = handlebars_string_addcslashes(ctx->ctx, ast_node->node.string.value, quote, 1);
-    __APPEND_STR(tmp);
-    handlebars_talloc_free(tmp);
-    __APPEND(quote);
-}
-
-static void _handlebars_ast_to_string_number(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-{
-    __APPEND_STR(ast_node->node.number.value);
-}
-
-static void _handlebars_ast_to_string_boolean(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-{
-    __APPEND_STR(ast_node->node.boolean.value);
-}
-
-static void _handlebars_ast_to_string_undefined(HBS_ATTR_UNUSED struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-{
-    __APPENDS("undefined");
-}
-
-static void _handlebars_ast_to_string_null(HBS_ATTR_UNUSED struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-{
-    __APPENDS("null");
+    __APPENDL(&quote, 1);
 }
 
 static void _handlebars_ast_to_string_hash(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
@@ -851,54 +952,15 @@ static void _handlebars_ast_to_string_hash(struct handlebars_ast_node * ast_node
     struct handlebars_ast_list * ast_list = ast_node->node.hash.pairs;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool prev_in_partial = ctx->in_partial;
-    ctx->in_partial = false;
 
     handlebars_ast_list_foreach(ast_list, item, tmp) {
-        __APPEND_STR(item->data->node.hash_pair.key);
+        _handlebars_ast_to_string_id(item->data->node.hash_pair.key, false, ctx);
         __APPENDS("=");
         __PRINT(item->data->node.hash_pair.value);
         if( item->next ) {
             __APPENDS(" ");
         }
     }
-
-    ctx->in_partial = prev_in_partial;
-}
-
-
-
-
-static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only)
-{
-    struct handlebars_ast_list * ast_list = ast_node->node.path.parts;
-    struct handlebars_ast_list_item * item;
-    struct handlebars_ast_list_item * tmp;
-
-    assert(ast_node->node.path.data == 0 || ast_node->node.path.data == 1);
-
-    if (ast_node->node.path.original) {
-        __APPEND_STR(ast_node->node.path.original);
-    } else {
-        if( ast_node->node.path.data ) {
-            __APPENDS("@");
-        }
-
-        if( !ast_list || handlebars_ast_list_count(ast_list) <= 0 ) {
-            __APPENDS(".");
-            return;
-        }
-
-        handlebars_ast_list_foreach(ast_list, item, tmp) {
-            __APPEND_STR(item->data->node.path_segment.part);
-            // if (first_only) {
-            //     return;
-            // }
-            if( item->next ) {
-                __APPEND_STR(item->next->data->node.path_segment.separator);
-            }
-        }
-    }
 }
 
 static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
@@ -909,7 +971,7 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
 
     switch( ast_node->type ) {
         case HANDLEBARS_AST_NODE_BOOLEAN:
-            _handlebars_ast_to_string_boolean(ast_node, ctx);
+            __APPEND_STR(ast_node->node.boolean.value);
             break;
         case HANDLEBARS_AST_NODE_BLOCK:
             _handlebars_ast_to_string_block(ast_node, ctx);
@@ -918,7 +980,7 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
             _handlebars_ast_to_string_comment(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_CONTENT:
-            _handlebars_ast_to_string_content(ast_node, ctx);
+            _handlebars_ast_to_string_text(ast_node->node.content.original, false, ctx);
             break;
         case HANDLEBARS_AST_NODE_HASH:
             _handlebars_ast_to_string_hash(ast_node, ctx);
@@ -927,10 +989,10 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
             _handlebars_ast_to_string_mustache(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_NUL:
-            _handlebars_ast_to_string_null(ast_node, ctx);
+            __APPENDS("null");
             break;
         case HANDLEBARS_AST_NODE_NUMBER:
-            _handlebars_ast_to_string_number(ast_node, ctx);
+            __APPEND_STR(ast_node->node.number.value);
             break;
         case HANDLEBARS_AST_NODE_PARTIAL:
             _handlebars_ast_to_string_partial(ast_node, ctx);
@@ -939,13 +1001,13 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
             _handlebars_ast_to_string_partial_block(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_PATH:
-            _handlebars_ast_to_string_path(ast_node, ctx, 0);
+            _handlebars_ast_to_string_path(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_PROGRAM:
-            _handlebars_ast_to_string_program(ast_node, ctx);
+            _handlebars_ast_to_string_list(ast_node->node.program.statements, false, ctx);
             break;
         case HANDLEBARS_AST_NODE_RAW_BLOCK:
-            _handlebars_ast_to_string_block(ast_node, ctx);
+            _handlebars_ast_to_string_raw_block(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_SEXPR:
             _handlebars_ast_to_string_sexpr(ast_node, ctx);
@@ -954,7 +1016,7 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
             _handlebars_ast_to_string_string(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_UNDEFINED:
-            _handlebars_ast_to_string_undefined(ast_node, ctx);
+            __APPENDS("undefined");
             break;
         // LCOV_EXCL_START
         // Note: these should never be printed, intermediate nodes
-- 
2.43.0


From 1d1dff24107184fc47fed52e1654a5fdba86f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:15 +0000
Subject: [PATCH 56/73] fix: mustache style lambdas: source in the delimiters
 in force, inverted sections, delimiters of partials, texts that look empty

---
 src/handlebars_ast_printer.c | 106 +++++++++++++++++++++++++++++------
 src/handlebars_ast_printer.h |  17 ++++++
 src/handlebars_vm.c          |  34 +++++++++--
 3 files changed, 135 insertions(+), 22 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 183cf44..a16c9e6 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -104,6 +104,9 @@ struct handlebars_ast_printer_context {
     int error;
     struct handlebars_string * output;
     bool in_partial;
+    // Delimiters to write tags with, if not the default ones
+    struct handlebars_string * open;
+    struct handlebars_string * close;
 };
 
 
@@ -533,6 +536,22 @@ struct handlebars_string * handlebars_ast_print(struct handlebars_context * cont
 #undef CONTEXT
 #define CONTEXT HBSCTX(ctx->ctx)
 
+#define __OPEN() do { \
+        if( ctx->open ) { \
+            __APPEND_STR(ctx->open); \
+        } else { \
+            __APPENDS("{{"); \
+        } \
+    } while(0)
+
+#define __CLOSE() do { \
+        if( ctx->close ) { \
+            __APPEND_STR(ctx->close); \
+        } else { \
+            __APPENDS("}}"); \
+        } \
+    } while(0)
+
 static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx);
 
 //! Append text outside of tags, such that it is read back as the same text
@@ -541,6 +560,12 @@ static void _handlebars_ast_to_string_text(struct handlebars_string * text, bool
     const char * p = hbs_str_val(text);
     const char * end = p + hbs_str_len(text);
 
+    if( ctx->open && !hbs_str_eq_strl(ctx->open, HBS_STRL("{{")) ) {
+        // Braces are plain text
+        __APPEND_STR(text);
+        return;
+    }
+
     while( p < end ) {
         const char * start = p;
         if( *p == '{' ) {
@@ -723,11 +748,47 @@ static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node
 
 
 
+//! Append a change of delimiters, if the node is one
+static bool _handlebars_ast_to_string_set_delimiters(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+{
+    struct handlebars_ast_node * path = ast_node->node.mustache.path;
+    struct handlebars_ast_list * params = ast_node->node.mustache.params;
+    struct handlebars_ast_node * open;
+    struct handlebars_ast_node * close;
+
+    if( path->type != HANDLEBARS_AST_NODE_PATH || !path->node.path.original ||
+            !hbs_str_eq_strl(path->node.path.original, HBS_STRL("hbsc_set_delimiters")) ||
+            !params || handlebars_ast_list_count(params) != 2 ) {
+        return false;
+    }
+
+    open = params->first->data;
+    close = params->last->data;
+    if( open->type != HANDLEBARS_AST_NODE_STRING || close->type != HANDLEBARS_AST_NODE_STRING ) {
+        return false;
+    }
+
+    __OPEN();
+    __APPENDS("=");
+    __APPEND_STR(open->node.string.value);
+    __APPENDS(" ");
+    __APPEND_STR(close->node.string.value);
+    __APPENDS("=");
+    __CLOSE();
+    ctx->open = open->node.string.value;
+    ctx->close = close->node.string.value;
+    return true;
+}
+
 static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
     unsigned char unescaped = ast_node->node.mustache.unescaped;
 
-    __APPENDS("{{");
+    if( ctx->open && _handlebars_ast_to_string_set_delimiters(ast_node, ctx) ) {
+        return;
+    }
+
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->strip);
     if (unescaped == 1) {
         __APPENDS("{");
@@ -743,7 +804,7 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
         __APPENDS("}");
     }
     __APPEND_STRIP_RIGHT(ast_node->strip);
-    __APPENDS("}}");
+    __CLOSE();
 }
 
 //! Append what follows the opening of a block: the program that comes first and an inverse, if any
@@ -766,7 +827,7 @@ static void _handlebars_ast_to_string_block_open(
         __APPENDS("|");
     }
     __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
-    __APPENDS("}}");
+    __CLOSE();
 
     // Program
     if( program ) {
@@ -782,7 +843,7 @@ static void _handlebars_ast_to_string_block_open(
             chained = statements->first->data;
         }
 
-        __APPENDS("{{");
+        __OPEN();
         if( chained ) {
             __APPEND_STRIP_LEFT(chained->node.block.open_strip);
             __APPENDS("else ");
@@ -791,7 +852,7 @@ static void _handlebars_ast_to_string_block_open(
             __APPEND_STRIP_LEFT(ast_node->node.block.inverse_strip);
             __APPENDS("^");
             __APPEND_STRIP_RIGHT(ast_node->node.block.inverse_strip);
-            __APPENDS("}}");
+            __CLOSE();
             _handlebars_ast_to_string_list(statements, true, ctx);
         }
     }
@@ -802,7 +863,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
     struct handlebars_ast_node * program = ast_node->node.block.program;
     struct handlebars_ast_node * inverse = ast_node->node.block.inverse;
 
-    __APPENDS("{{");
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
     if( ast_node->node.block.is_inverted || (inverse && !program) ) {
         __APPENDS("^");
@@ -816,12 +877,12 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
     }
 
     // end
-    __APPENDS("{{");
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
     __APPENDS("/");
     __PRINT(ast_node->node.block.path);
     __APPEND_STRIP_RIGHT(ast_node->node.block.close_strip);
-    __APPENDS("}}");
+    __CLOSE();
 }
 
 static void _handlebars_ast_to_string_raw_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
@@ -854,13 +915,13 @@ static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_n
 {
     assert(ast_node->node.partial.name != NULL);
 
-    __APPENDS("{{");
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS(">");
     __PRINT(ast_node->node.partial.name);
     _handlebars_ast_to_string_params_hash(ast_node->node.partial.params, ast_node->node.partial.hash, ctx);
     __APPEND_STRIP_RIGHT(ast_node->strip);
-    __APPENDS("}}");
+    __CLOSE();
 }
 
 
@@ -868,13 +929,13 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
 {
     struct handlebars_ast_node * path = ast_node->node.partial_block.path;
 
-    __APPENDS("{{");
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
     __APPENDS("#>");
     __PRINT(path);
     _handlebars_ast_to_string_params_hash(ast_node->node.partial_block.params, ast_node->node.partial_block.hash, ctx);
     __APPEND_STRIP_RIGHT(ast_node->node.partial_block.open_strip);
-    __APPENDS("}}");
+    __CLOSE();
 
     // Program
     if( ast_node->node.partial_block.program ) {
@@ -882,7 +943,7 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     }
 
     // end
-    __APPENDS("{{");
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
     __APPENDS("/");
     if( path->type == HANDLEBARS_AST_NODE_SEXPR ) {
@@ -891,14 +952,14 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
         __PRINT(path);
     }
     __APPEND_STRIP_RIGHT(ast_node->node.partial_block.close_strip);
-    __APPENDS("}}");
+    __CLOSE();
 }
 
 static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
     struct handlebars_string * value = ast_node->node.comment.value;
 
-    __APPENDS("{{");
+    __OPEN();
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS("!");
     if (ast_node->node.comment.is_long) {
@@ -910,7 +971,7 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
         __APPENDS("--");
     }
     __APPEND_STRIP_RIGHT(ast_node->strip);
-    __APPENDS("}}");
+    __CLOSE();
 }
 
 static void _handlebars_ast_to_string_sexpr(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
@@ -1040,12 +1101,21 @@ struct handlebars_string * handlebars_ast_to_string(
     struct handlebars_context * context,
     struct handlebars_ast_node * ast_node
 ) {
-    // return handlebars_string_ctor(context, "", 0);
-    // return handlebars_ast_print(context, ast_node);
+    return handlebars_ast_to_string_ex(context, ast_node, NULL, NULL);
+}
+
+struct handlebars_string * handlebars_ast_to_string_ex(
+    struct handlebars_context * context,
+    struct handlebars_ast_node * ast_node,
+    struct handlebars_string * open,
+    struct handlebars_string * close
+) {
     struct handlebars_string * output;
     struct handlebars_ast_printer_context * ctx = MC(handlebars_talloc_zero(context, struct handlebars_ast_printer_context));
     ctx->ctx = context;
     ctx->output = handlebars_string_ctor(context, "", 0);
+    ctx->open = open;
+    ctx->close = close;
     _handlebars_ast_to_string(ast_node, ctx);
     output = talloc_steal(context, ctx->output);
     handlebars_talloc_free(ctx);
diff --git a/src/handlebars_ast_printer.h b/src/handlebars_ast_printer.h
index f80817f..aa12907 100644
--- a/src/handlebars_ast_printer.h
+++ b/src/handlebars_ast_printer.h
@@ -29,6 +29,7 @@ HBS_EXTERN_C_START
 
 struct handlebars_ast_node;
 struct handlebars_context;
+struct handlebars_string;
 
 /**
  * @brief Print an AST into a human-readable string.
@@ -47,6 +48,22 @@ struct handlebars_string * handlebars_ast_to_string(
     struct handlebars_ast_node * ast_node
 ) HBS_ATTR_NONNULL_ALL HBS_ATTR_RETURNS_NONNULL HBS_ATTR_WARN_UNUSED_RESULT;
 
+/**
+ * @brief Convert an AST back to template text, whose tags are written with the given delimiters.
+ *
+ * @param[in] context The handlebars context
+ * @param[in] ast_node The AST
+ * @param[in] open The opening delimiter, or NULL
+ * @param[in] close The closing delimiter, or NULL
+ * @return The template text
+ */
+struct handlebars_string * handlebars_ast_to_string_ex(
+    struct handlebars_context * context,
+    struct handlebars_ast_node * ast_node,
+    struct handlebars_string * open,
+    struct handlebars_string * close
+) HBS_ATTR_NONNULL(1, 2) HBS_ATTR_RETURNS_NONNULL HBS_ATTR_WARN_UNUSED_RESULT;
+
 HBS_EXTERN_C_END /* HANDLEBARS_AST_PRINTER_H */
 
 #endif
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index b5fcbbd..322ad20 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -32,6 +32,7 @@
 #include "handlebars_value_private.h"
 #include "handlebars_vm_private.h"
 
+#include "handlebars_ast_printer.h"
 #include "handlebars_cache.h"
 #include "handlebars_closure.h"
 #include "handlebars_compiler.h"
@@ -366,6 +367,8 @@ static struct handlebars_string * execute_template(
     bool volatile failed = false;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
+    struct handlebars_string * prev_delim_open = vm->delim_open;
+    struct handlebars_string * prev_delim_close = vm->delim_close;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
@@ -435,6 +438,12 @@ static struct handlebars_string * execute_template(
         handlebars_parser_dtor(parser);
     }
 
+    // A template that is not read with the current delimiters starts with the default ones
+    if (!use_delimiters) {
+        vm->delim_open = NULL;
+        vm->delim_close = NULL;
+    }
+
     retval = handlebars_vm_execute(vm, module, input);
     assert(retval != NULL);
 
@@ -444,6 +453,8 @@ static struct handlebars_string * execute_template(
 
 done:
     HBSCTX(vm)->e->jmp = prev_jmp;
+    vm->delim_open = prev_delim_open;
+    vm->delim_close = prev_delim_close;
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
@@ -563,21 +574,36 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
     HANDLEBARS_VALUE_ARRAY_DECL(lambda_argv, 1);
     struct handlebars_value *callable = HANDLEBARS_LOCAL_AT(0);
     struct handlebars_string *lambda_tmpl = handlebars_value_get_string(HANDLEBARS_LOCAL_AT(1));
-    bool use_delimiters = handlebars_value_get_boolval(HANDLEBARS_LOCAL_AT(2));
+    bool is_block = handlebars_value_get_boolval(HANDLEBARS_LOCAL_AT(2));
+
+    if (is_block && options->program < 0) {
+        // An inverted section: lambdas are always truthy
+        handlebars_value_str(rv, handlebars_string_ctor(CONTEXT, HBS_STRL("")));
+        goto done;
+    }
+
+    if (is_block && vm->delim_open && !hbs_str_eq_strl(vm->delim_open, HBS_STRL("{{")) && hbs_str_len(lambda_tmpl) > 0) {
+        // The source is written with the default delimiters, but what is returned is going to be read with these
+        struct handlebars_parser * parser = handlebars_parser_ctor(CONTEXT);
+        struct handlebars_ast_node * ast = handlebars_parse_ex(parser, lambda_tmpl, 0);
+        lambda_tmpl = handlebars_ast_to_string_ex(CONTEXT, ast, vm->delim_open, vm->delim_close);
+        handlebars_parser_dtor(parser);
+    }
 
     handlebars_value_str(&lambda_argv[0], lambda_tmpl);
 
     handlebars_value_call(callable, 1, lambda_argv, options, vm, lambda_result);
 
-    if (!handlebars_value_is_empty(lambda_result)) {
+    do {
         struct handlebars_string * tmpl = handlebars_value_to_string(lambda_result, CONTEXT);
         HANDLEBARS_VALUE_DECL(context);
         handlebars_value_value(context, TOP(vm->contextStack));
-        struct handlebars_string * rv_str = execute_template(vm, tmpl, context, NULL, 0, use_delimiters);
+        struct handlebars_string * rv_str = execute_template(vm, tmpl, context, NULL, 0, is_block);
         handlebars_value_str(rv, rv_str);
         HANDLEBARS_VALUE_UNDECL(context);
-    }
+    } while(0);
 
+done:
     HANDLEBARS_VALUE_ARRAY_UNDECL(lambda_argv, 1);
     HANDLEBARS_VALUE_UNDECL(lambda_result);
 
-- 
2.43.0


From bdd0409f695fb686066d06c95613e72eccf91774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 57/73] fix: changed delimiters: braces next to tags and
 escaped triple mustaches

---
 src/handlebars_delimiters.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 56c3443..692a784 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -52,6 +52,20 @@
     i -= x
 #endif
 
+// A brace of the text would become a part of the tag that follows
+#define separate_text() \
+    if( !is_default_open && hbs_str_len(new_tmpl) > 0 && hbs_str_val(new_tmpl)[hbs_str_len(new_tmpl) - 1] == '{' ) { \
+        append(" {{~!}}", 7); \
+    }
+// A brace of the text would become a part of the tag before
+#define separate_tag(custom) \
+    if( (custom) && *p == '}' && !is_tag_open(p, i) ) { \
+        append("{{!}}", 5); \
+    }
+// Whether a tag starts at x, with n characters left
+#define is_tag_open(x, n) \
+    ((size_t) (n) >= hbs_str_len(open) + hbs_str_len(close) + 1 && strncmp(x, hbs_str_val(open), hbs_str_len(open)) == 0)
+
 struct handlebars_string * handlebars_preprocess_delimiters(
     struct handlebars_context * ctx,
     struct handlebars_string * tmpl,
@@ -95,6 +109,15 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                         move_forward(1);
                         append(p, 1);
                     }
+                    // (an escaped tag may have up to three brackets)
+                    if( is_default_open && *p == '{' && i > 1 && *(p + 1) == '{' ) {
+                        move_forward(1);
+                        append(p, 1);
+                        if( i > 1 && *(p + 1) == '{' ) {
+                            move_forward(1);
+                            append(p, 1);
+                        }
+                    }
                     continue;
                 }
 
@@ -102,6 +125,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // hbs_str_len(open) + hbs_str_len(close) + 2 (for equals) + 1 (minimum delimiter size) + 1 (space in the middle)
                 if( (size_t) i >= hbs_str_len(open) + hbs_str_len(close) + 4 && strncmp(p, hbs_str_val(open), hbs_str_len(open)) == 0 && *(p + hbs_str_len(open)) == '=' ) {
                     // We are going into a delimiter switch
+                    separate_text();
                     state = 1; goto state1;
                 }
 
@@ -109,13 +133,14 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // hbs_str_len(open) + hbs_str_len(close) + 1
                 if( (size_t) i >= hbs_str_len(open) + hbs_str_len(close) + 1 && strncmp(p, hbs_str_val(open), hbs_str_len(open)) == 0 ) {
                     // We are going into a regular tag
+                    separate_text();
                     append("{{", 2);
                     move_forward(hbs_str_len(open));
                     state = 2; goto state2;
                 }
 
                 // Escape the brackets if our current custom delims aren't brackets
-                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !is_default_open ) {
+                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !is_default_open && !is_tag_open(p + 1, i - 1) ) {
                     append("\\{", 2);
                     move_forward(1);
                 }
@@ -225,6 +250,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
 
                 // Goto new state
                 if( i > 0 ) {
+                    separate_tag(true);
                     state = 0;
                     goto state0;
                 }
@@ -236,6 +262,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     append("}}", 2);
                     move_forward(hbs_str_len(close));
                     if( i > 0 ) {
+                        separate_tag(!is_default_open);
                         state = 0;
                         goto state0;
                     }
-- 
2.43.0


From db376f78f9b411f7ee912087f20f99227cac16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:34 +0000
Subject: [PATCH 58/73] fix: partial loader: a file that cannot be opened is an
 error, not a missing partial

---
 src/handlebars_partial_loader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 6e3b7cf..a8bd646 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <errno.h>
 #include <limits.h>
 #include <string.h>
 #include <talloc.h>
@@ -103,6 +104,9 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
 
     f = fopen(hbs_str_val(filename), "rb");
     if( !f ) {
+        if (errno != ENOENT && errno != ENOTDIR && errno != ENAMETOOLONG) {
+            handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+        }
         // There is no such partial, what that means is up to the caller
         handlebars_talloc_free(filename);
         return NULL;
-- 
2.43.0


From aff9c4b1ef84f36c8bf2a0538bda3b484c4c85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:07 +0000
Subject: [PATCH 59/73] fix: handlebarsc: NUL bytes in templates, falsy YAML
 data, directories as input; string params and ids of implicit partial
 contexts

---
 bin/handlebarsc.c    | 37 ++++++++++++++++++++++++-------------
 src/handlebars_ast.c |  7 ++++++-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 26c5b92..1aa38cf 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -19,6 +19,7 @@
 #include "config.h"
 #endif
 
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -289,10 +290,15 @@ static char * read_stdin(void)
     char buffer[__BUFF_SIZE];
     FILE * in = stdin;
     char * buf = talloc_strdup(root, "");
+    size_t length = 0;
+    size_t read;
 
     // Read
-    while( fgets(buffer, __BUFF_SIZE, in) != NULL ) {
-        buf = talloc_strdup_append_buffer(buf, buffer);
+    while( (read = fread(buffer, 1, __BUFF_SIZE, in)) > 0 ) {
+        buf = talloc_realloc(root, buf, char, length + read + 1);
+        memcpy(buf + length, buffer, read);
+        length += read;
+        buf[length] = 0;
     }
 
     return buf;
@@ -318,9 +324,11 @@ static char * file_get_contents(char * filename)
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if( fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0 || size == LONG_MAX || fseek(f, 0, SEEK_SET) != 0 ) {
+        fclose(f);
+        fprintf(stderr, "Failed to read file: %s\n", filename);
+        exit(1);
+    }
 
     buf = talloc_array(root, char, size + 1);
     size_t read = fread(buf, size, 1, f);
@@ -465,7 +473,7 @@ static int do_lex(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -508,7 +516,7 @@ static int do_parse(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -554,7 +562,7 @@ static int do_compile(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -603,7 +611,7 @@ static int do_module(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -668,7 +676,7 @@ static int do_execute(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -682,8 +690,11 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (handlebars_value_is_empty(input) && input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
-                    0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
+            bool is_yaml = input_data_name_len > 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml");
+            if (input_data_name_len > 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) {
+                is_yaml = true;
+            }
+            if (is_yaml) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
@@ -691,7 +702,7 @@ static int do_execute(void)
                 exit(1);
 #endif
             }
-            if (handlebars_value_is_empty(input)) {
+            if (!is_yaml) {
 #ifdef HANDLEBARS_HAVE_JSON
                 // assume json
                 handlebars_value_init_json_stringl(ctx, input, input_str, input_str_size - 1);
diff --git a/src/handlebars_ast.c b/src/handlebars_ast.c
index 87ca15a..a5f8453 100644
--- a/src/handlebars_ast.c
+++ b/src/handlebars_ast.c
@@ -105,10 +105,15 @@ struct handlebars_string * handlebars_ast_node_get_string_mode_value(
             string = node->node.nul.value;
             break;
         default:
-            string = handlebars_string_ctor(context, HBS_STRL(""));
+            string = NULL;
             break;
     }
 
+    // An implicit path has no source text
+    if( string == NULL ) {
+        string = handlebars_string_ctor(context, HBS_STRL(""));
+    }
+
     return string;
 }
 
-- 
2.43.0


From a546d0face28b4106469652ac4cd178b2e1e41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:43 +0000
Subject: [PATCH 60/73] fix: stacks: refused sets, protection across copies, a
 value set into itself, references of pushed values

---
 src/handlebars_stack.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 3bb3583..eb5c3c5 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -98,6 +98,7 @@ static inline struct handlebars_stack * stack_separate(struct handlebars_stack *
         }
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(stack, prev_stack->capacity);
+        stack->protect = prev_stack->protect;
         handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
     }
@@ -184,6 +185,11 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     assert(stack != NULL);
     assert(value != NULL);
 
+    // Cannot resize if this stack was stack allocated
+    if (stack->capacity <= stack->i && !(stack->flags & HANDLEBARS_STACK_TALLOCATED)) {
+        handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
+
     // The value may live in the stack itself, which growing it may free
     HANDLEBARS_VALUE_DECL(tmp);
     handlebars_value_value(tmp, value);
@@ -193,17 +199,17 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         stack = stack_separate(stack);
     } else {
         // Resize array if necessary
-
-        // Cannot resize if this stack was stack allocated
-        if (!(stack->flags & HANDLEBARS_STACK_TALLOCATED)) {
-            handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
-        }
-
         size_t capacity = (stack->capacity | 3) * 3 / 2;
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
+        stack->protect = prev_stack->protect;
+#ifndef HANDLEBARS_NO_REFCOUNT
+        // A stack nobody holds yet must not become one that somebody holds
+        if (handlebars_rc_refcount(&prev_stack->rc) >= 1) {
+            handlebars_stack_addref(stack);
+        }
+#endif
         handlebars_stack_delref(prev_stack);
-        handlebars_stack_addref(stack);
     }
 
     handlebars_value_init(&stack->v[stack->i]);
@@ -228,7 +234,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
@@ -266,9 +272,6 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return handlebars_stack_push(stack, value);
     }
 
-    // Separate if refcount > 1
-    stack = stack_separate(stack);
-
     // Out-of-bounds
     if( offset >= stack->i ) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Out-of-bounds %zu/%zu", offset, stack->i);
@@ -279,12 +282,16 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to set protected stack segment offset=%zu protect=%zu", offset, stack->protect);
     }
 
-    // As a special case, ignore
-    if( value == &stack->v[offset] ) {
-        return stack;
-    }
+    // The value may be an element of the stack, or hold the stack itself
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
 
-    handlebars_value_value(&stack->v[offset], value);
+    // Separate if refcount > 1
+    stack = stack_separate(stack);
+
+    handlebars_value_value(&stack->v[offset], tmp);
+
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return stack;
 }
-- 
2.43.0


From cbf3319d237757f211229a7aedea1ec5a0426ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:10 +0000
Subject: [PATCH 61/73] fix: serialized modules: uninitialized bytes after
 strings, sizes trusted while verifying

---
 src/handlebars_opcode_serializer.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..01ab82e 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -64,8 +64,11 @@ static void * append(struct handlebars_module * module, void * source, size_t si
     return addr;
 }
 
-static inline void patch_string(struct handlebars_string * str) {
+static inline void patch_string(struct handlebars_string * str, size_t size) {
     handlebars_string_immortalize(str);
+    // What follows the terminator is not part of the contents and may be uninitialized
+    char * end = hbs_str_val(str) + hbs_str_len(str) + 1;
+    memset(end, 0, ((char *) str + size) - end);
 }
 
 static size_t calculate_size_operand(struct handlebars_module * module, struct handlebars_operand * operand)
@@ -147,7 +150,7 @@ static void serialize_operand(struct handlebars_module * module, struct handleba
 
             size = HBS_STR_SIZE(hbs_str_len(operand->data.string.string));
             operand->data.string.string = append(module, operand->data.string.string, size);
-            patch_string(operand->data.string.string);
+            patch_string(operand->data.string.string, size);
             break;
         case handlebars_operand_type_array:
             operand->data.array.array = append(module, operand->data.array.array, sizeof(struct handlebars_operand_string) * operand->data.array.count);
@@ -157,7 +160,7 @@ static void serialize_operand(struct handlebars_module * module, struct handleba
 
                 size = HBS_STR_SIZE(hbs_str_len(operand->data.array.array[i].string));
                 operand->data.array.array[i].string = append(module, operand->data.array.array[i].string, size);
-                patch_string(operand->data.array.array[i].string);
+                patch_string(operand->data.array.array[i].string, size);
             }
             break;
         default:
@@ -410,8 +413,21 @@ bool handlebars_module_verify(
     struct handlebars_module * module,
     struct handlebars_context * ctx
 ) {
-    uint64_t hash = calculate_hash(module);
     bool matched = true;
+    // The size decides how much is hashed, so it must not be trusted on its own
+    if (module->data_offset > module->size || module->size - module->data_offset != sizeof(struct handlebars_module)) {
+        if (ctx != NULL) {
+            handlebars_throw(
+                ctx,
+                HANDLEBARS_ERROR,
+                "Invalid module size expected=%zu actual=%zu",
+                module->data_offset + sizeof(struct handlebars_module),
+                module->size
+            );
+        }
+        return false;
+    }
+    uint64_t hash = calculate_hash(module);
     if (hash != module->hash) {
         if (ctx != NULL) {
             handlebars_throw(
-- 
2.43.0


From f1512c6fb37dd9d9358974c6e0c3659ee6e1cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 62/73] fix: YAML: text after the document that cannot be
 parsed was ignored

---
 src/handlebars_yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index cf2a408..b769b66 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -144,6 +144,12 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     yaml_parser_load(&yctx->parser, &yctx->document);
     yaml_node_t * node = yaml_document_get_root_node(&yctx->document);
     if( node ) {
+        // What follows the document must be parsable as well
+        yaml_document_t rest;
+        if( !yaml_parser_load(&yctx->parser, &rest) ) {
+            handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
+        }
+        yaml_document_delete(&rest);
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
         handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
-- 
2.43.0


From 9a1b2d846054195396e2eace1f5f4c5baecece24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:29 +0000
Subject: [PATCH 63/73] fix: error messages were cut after 255 bytes

---
 src/handlebars.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/handlebars.c b/src/handlebars.c
index 7570ca2..e7ef538 100644
--- a/src/handlebars.c
+++ b/src/handlebars.c
@@ -111,7 +111,6 @@ const char * handlebars_error_msg(struct handlebars_context * context)
 char * handlebars_error_message(struct handlebars_context * context)
 {
     char * errmsg;
-    char errbuf[256];
     struct handlebars_error * e = context->e;
 
     assert(context != NULL);
@@ -121,12 +120,10 @@ char * handlebars_error_message(struct handlebars_context * context)
         return NULL;
     }
 
-    snprintf(errbuf, sizeof(errbuf), "%s on line %d, column %d",
+    errmsg = handlebars_talloc_asprintf(context, "%s on line %d, column %d",
              e->msg,
              e->loc.last_line,
              e->loc.last_column);
-
-    errmsg = handlebars_talloc_strdup(context, errbuf);
     if( unlikely(errmsg == NULL) ) {
         // this might be a bad idea...
         // fprintf(stderr, "%s\n", e->msg);
@@ -140,7 +137,6 @@ char * handlebars_error_message(struct handlebars_context * context)
 char * handlebars_error_message_js(struct handlebars_context * context)
 {
     char * errmsg;
-    char errbuf[512];
     struct handlebars_error * e = context->e;
 
     assert(context != NULL);
@@ -151,12 +147,10 @@ char * handlebars_error_message_js(struct handlebars_context * context)
 
     // @todo check errno == HANDLEBARS_PARSEERR
 
-    snprintf(errbuf, sizeof(errbuf), "Parse error on line %d, column %d : %s",
+    errmsg = handlebars_talloc_asprintf(context, "Parse error on line %d, column %d : %s",
              e->loc.first_line,
              e->loc.first_column,
              e->msg);
-
-    errmsg = handlebars_talloc_strdup(context, errbuf);
     if( unlikely(errmsg == NULL) ) {
         // this might be a bad idea...
         // fprintf(stderr, "%s\n", e->msg);
-- 
2.43.0


From 7bb9ac3c4c6d3225c267ebccd838d69468caaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:35 +0000
Subject: [PATCH 64/73] fix: raw blocks with a literal as their name aborted or
 compared other memory

---
 src/handlebars_ast.c         | 1 -
 src/handlebars_ast_helpers.c | 5 +++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_ast.c b/src/handlebars_ast.c
index a5f8453..79ddc18 100644
--- a/src/handlebars_ast.c
+++ b/src/handlebars_ast.c
@@ -480,7 +480,6 @@ struct handlebars_ast_node * handlebars_ast_node_ctor_raw_block(
     params = intermediate->node.intermediate.params;
     hash = intermediate->node.intermediate.hash;
 
-    assert(path == NULL || path->type == HANDLEBARS_AST_NODE_PATH);
     assert(hash == NULL || hash->type == HANDLEBARS_AST_NODE_HASH);
 
     // Create the program node
diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index 7dbee0e..3a4bf82 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -298,14 +298,15 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_raw_block(
 ) {
     struct handlebars_ast_node * content_node;
     struct handlebars_ast_node * open_block_path;
+    struct handlebars_string * open;
 
     assert(open_raw_block != NULL);
     assert(open_raw_block->type == HANDLEBARS_AST_NODE_INTERMEDIATE);
     assert(close != NULL);
 
     open_block_path = open_raw_block->node.intermediate.path;
-    if( !handlebars_string_eq(open_block_path->node.path.original, close) ) {
-        struct handlebars_string * open = open_block_path->node.path.original;
+    open = handlebars_ast_node_get_string_mode_value(CONTEXT, open_block_path);
+    if( !handlebars_string_eq(open, close) ) {
         handlebars_throw_ex(
             CONTEXT,
             HANDLEBARS_ERROR,
-- 
2.43.0


From dd7e5fc3f27c289b47bca5aa78dd94e93cdb7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:27 +0000
Subject: [PATCH 65/73] fix: an empty template was a parse error

---
 src/handlebars.tab.c | 761 ++++++++++++++++++++++---------------------
 src/handlebars.y     |   6 +
 2 files changed, 397 insertions(+), 370 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index af1591c..c2e6714 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -542,18 +542,18 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  50
+#define YYFINAL  51
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   283
+#define YYLAST   330
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  36
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  34
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  80
+#define YYNRULES  81
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  125
+#define YYNSTATES  126
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   290
@@ -606,15 +606,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   196,   199,   206,   210,   217,   220,   223,
-     226,   229,   232,   235,   242,   252,   256,   262,   265,   271,
-     277,   280,   283,   286,   292,   296,   300,   307,   315,   322,
-     329,   332,   335,   338,   341,   347,   351,   360,   367,   371,
-     378,   382,   386,   390,   397,   400,   406,   410,   414,   418,
-     425,   429,   436,   439,   445,   451,   456,   460,   463,   466,
-     469,   475,   483,   487,   494,   500,   504,   511,   514,   517,
-     520,   523,   526,   529,   532,   538,   541,   547,   553,   559,
-     565
+       0,   188,   188,   193,   202,   205,   212,   216,   223,   226,
+     229,   232,   235,   238,   241,   248,   258,   262,   268,   271,
+     277,   283,   286,   289,   292,   298,   302,   306,   313,   321,
+     328,   335,   338,   341,   344,   347,   353,   357,   366,   373,
+     377,   384,   388,   392,   396,   403,   406,   412,   416,   420,
+     424,   431,   435,   442,   445,   451,   457,   462,   466,   469,
+     472,   475,   481,   489,   493,   500,   506,   510,   517,   520,
+     523,   526,   529,   532,   535,   538,   544,   547,   553,   559,
+     565,   571
 };
 #endif
 
@@ -653,7 +653,7 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-57)
+#define YYPACT_NINF (-58)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
@@ -667,19 +667,19 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     231,   -57,    13,   150,   150,   150,   124,   150,   150,   124,
-     -57,   -57,    24,    27,   250,   -57,   -57,   -57,     3,   -57,
-     174,   174,   -57,   -57,   -57,   212,   -57,   -57,    15,   -57,
-     -57,   -57,   -57,   -57,   -57,    32,   146,   -57,   -57,     6,
-      33,     9,    35,   150,   -57,   -57,    54,    36,    41,    87,
-     -57,   -57,   -57,   -57,    31,   231,   150,   150,     2,    40,
-     193,   -57,   -57,   -57,    40,   -57,    40,   -57,     6,   -57,
-      43,   146,   -57,   -57,   -57,    47,   -57,   -57,    49,   -57,
-      50,   -57,   -57,    60,   -57,    91,    64,   -57,   -57,   -57,
-     120,    65,   -57,   -57,    67,    68,   -57,   -57,     2,   -57,
-     -57,   -57,   124,   -57,   -57,    43,   -57,   -57,     8,   -57,
-     -57,    69,   -57,   -57,    70,   -57,   -57,   -57,   -57,   -57,
-      48,   -57,   -57,   -57,   -57
+      68,   -58,   -58,     5,   200,   200,   200,   167,   200,   200,
+     167,   -58,   -58,    21,    22,   297,   -58,   -58,   -58,    26,
+     -58,   221,   221,   -58,   -58,   -58,   259,   -58,   -58,    11,
+     -58,   -58,   -58,   -58,   -58,   -58,    24,   181,   -58,   -58,
+      14,    27,     7,    34,   200,   -58,   -58,    94,    36,    35,
+     108,   -58,   -58,   -58,   -58,    37,   278,   200,   200,     2,
+      39,   240,   -58,   -58,   -58,    39,   -58,    39,   -58,    14,
+     -58,    43,   181,   -58,   -58,   -58,    46,   -58,   -58,    47,
+     -58,    48,   -58,   -58,    50,   -58,   134,    59,   -58,   -58,
+     -58,   148,    60,   -58,   -58,    62,    63,   -58,   -58,     2,
+     -58,   -58,   -58,   167,   -58,   -58,    43,   -58,   -58,    -1,
+     -58,   -58,    65,   -58,   -58,    66,   -58,   -58,   -58,   -58,
+     -58,    44,   -58,   -58,   -58,   -58
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -687,37 +687,37 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-       0,    13,    16,     0,     0,     0,     0,     0,     0,     0,
-      14,     4,     0,     0,     3,     5,    12,     9,     0,     8,
-       0,     0,     7,    10,    11,     0,    15,    72,     0,    80,
-      71,    69,    74,    73,    70,     0,    60,    68,    67,    78,
-       0,    56,     0,     0,    76,    75,     0,     0,     0,     0,
-       1,     2,     6,    18,     0,    36,     0,     0,    26,     0,
-      33,    24,    34,    21,     0,    23,     0,    45,    77,    38,
-      80,    59,    50,    53,    58,    61,    63,    52,     0,    27,
-       0,    55,    28,     0,    43,     0,     0,    19,    39,    49,
-       0,     0,    17,    35,     0,     0,    25,    20,    32,    31,
-      22,    44,     0,    51,    57,     0,    62,    79,     0,    54,
-      41,     0,    42,    47,     0,    48,    37,    29,    30,    64,
-       0,    66,    40,    46,    65
+       0,     3,    14,    17,     0,     0,     0,     0,     0,     0,
+       0,    15,     5,     0,     0,     4,     6,    13,    10,     0,
+       9,     0,     0,     8,    11,    12,     0,    16,    73,     0,
+      81,    72,    70,    75,    74,    71,     0,    61,    69,    68,
+      79,     0,    57,     0,     0,    77,    76,     0,     0,     0,
+       0,     1,     2,     7,    19,     0,    37,     0,     0,    27,
+       0,    34,    25,    35,    22,     0,    24,     0,    46,    78,
+      39,    81,    60,    51,    54,    59,    62,    64,    53,     0,
+      28,     0,    56,    29,     0,    44,     0,     0,    20,    40,
+      50,     0,     0,    18,    36,     0,     0,    26,    21,    33,
+      32,    23,    45,     0,    52,    58,     0,    63,    80,     0,
+      55,    42,     0,    43,    48,     0,    49,    38,    30,    31,
+      65,     0,    67,    41,    47,    66
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -57,   -57,     1,   -57,    62,     7,   -57,   -57,   -57,    57,
-     -57,   -57,   -57,   -53,   -57,   -15,   -57,   -57,   -57,   -57,
-     -30,   -56,    14,    -3,    10,   -38,   -57,    11,   -57,    -6,
-      72,   -57,   -57,    55
+     -58,   -58,     1,   -58,    57,     6,   -58,   -58,   -58,    51,
+     -58,   -58,   -58,   -54,   -58,   -16,   -58,   -58,   -58,   -58,
+     -31,   -57,    13,    -4,     9,   -39,   -58,    -2,   -58,    -7,
+      70,   -58,   -58,    49
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-       0,    12,    58,    14,    15,    16,    17,    18,    19,    59,
-      20,    21,    60,    61,    62,    63,    22,    23,    24,    25,
-      71,    72,    73,    40,    41,    74,    75,    76,    81,    36,
-      46,    37,    38,    39
+       0,    13,    59,    15,    16,    17,    18,    19,    20,    60,
+      21,    22,    61,    62,    63,    64,    23,    24,    25,    26,
+      72,    73,    74,    41,    42,    75,    76,    77,    82,    37,
+      47,    38,    39,    40
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -725,115 +725,125 @@ static const yytype_int8 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      45,    13,    42,    45,    47,    96,    65,    99,    86,    26,
-      67,    91,     2,    35,    53,   103,    85,    55,    48,    90,
-      44,   120,     2,    44,    50,    54,    66,    51,    29,   103,
-      77,    78,    57,   104,   103,   121,    69,    79,    80,    82,
-      77,    87,    92,    77,    97,   118,   119,   111,    88,   100,
-      94,   101,   114,    83,    95,   102,    93,    27,    84,    56,
-     105,    98,   107,   108,    28,    77,   109,    70,   112,   115,
-      30,   116,   117,   122,   123,   124,    52,    43,    64,    77,
-      31,    49,    32,    68,    77,    33,   106,     0,    34,     0,
-      27,    89,     0,     0,    27,   110,    77,    28,     0,     0,
-      70,    28,     0,    30,    70,     0,     0,    30,     0,     0,
-      43,     0,     0,    31,    43,    32,     0,    31,    33,    32,
-       0,    34,    33,    27,   113,    34,     0,    27,     0,     0,
-      28,     0,     0,    70,    28,     0,    30,    29,     0,     0,
-      30,     0,     0,    43,     0,     0,    31,    43,    32,    27,
-      31,    33,    32,    27,    34,    33,    28,     0,    34,    70,
-      28,     0,    30,    29,     0,     0,    30,     0,     0,    43,
-       0,     0,    31,     0,    32,     0,    31,    33,    32,     0,
-      34,    33,     1,     2,    34,     0,     0,     0,     0,    55,
-       0,     3,     4,    56,     5,     6,     7,     0,     8,     0,
-       0,     1,     2,     0,    57,     0,     9,    10,    55,    11,
-       3,     4,     0,     5,     6,     7,     0,     8,     0,     0,
-       1,     2,     0,    57,     0,     9,    10,     0,    11,     3,
-       4,    56,     5,     6,     7,     0,     8,     0,     0,     1,
-       2,     0,     0,     0,     9,    10,     0,    11,     3,     4,
-       0,     5,     6,     7,     0,     8,     0,     0,     1,     2,
-       0,     0,     0,     9,    10,     0,    11,     3,     4,     0,
-       5,     6,     7,     0,     8,     0,     0,     0,     0,     0,
-       0,     0,     9,    10
+      46,    14,    43,    46,    48,    97,    66,   100,    87,    27,
+      68,    92,   121,    36,     3,   104,    86,    56,    49,    91,
+      45,    51,    52,    45,    30,    55,   122,    67,    70,   104,
+      78,    80,    58,   105,   104,     3,    81,    54,    83,    79,
+      78,    88,    89,    78,    98,   119,   120,   112,    93,   101,
+      95,   102,   115,    84,    96,   103,   110,    94,    57,   106,
+     108,   109,    99,   113,   116,    78,   117,   118,     1,   123,
+     124,   125,    53,    65,   107,     0,     2,     3,    69,    78,
+      50,     0,     0,     0,    78,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     0,    78,    28,    85,     0,
+      10,    11,     0,    12,    29,     0,     0,    71,     0,     0,
+      31,    28,    90,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+       0,    44,     0,     0,    32,     0,    33,    28,   111,    34,
+       0,     0,    35,     0,    29,     0,     0,    71,     0,     0,
+      31,    28,   114,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+      28,    44,     0,     0,    32,     0,    33,    29,     0,    34,
+      30,     0,    35,    31,    28,     0,     0,     0,     0,     0,
+      44,    29,     0,    32,    71,    33,     0,    31,    34,     0,
+       0,    35,     0,    28,    44,     0,     0,    32,     0,    33,
+      29,     0,    34,    30,     0,    35,    31,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,    32,     0,    33,     2,
+       3,    34,     0,     0,    35,     0,    56,     0,     4,     5,
+      57,     6,     7,     8,     0,     9,     0,     0,     2,     3,
+       0,    58,     0,    10,    11,    56,    12,     4,     5,     0,
+       6,     7,     8,     0,     9,     0,     0,     2,     3,     0,
+      58,     0,    10,    11,     0,    12,     4,     5,    57,     6,
+       7,     8,     0,     9,     0,     0,     2,     3,     0,     0,
+       0,    10,    11,     0,    12,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     2,     3,     0,     0,     0,
+      10,    11,     0,    12,     4,     5,     0,     6,     7,     8,
+       0,     9,     0,     0,     0,     0,     0,     0,     0,    10,
+      11
 };
 
 static const yytype_int8 yycheck[] =
 {
-       6,     0,     5,     9,     7,    58,    21,    60,    46,     2,
-      25,    49,     9,     3,    11,    71,    46,    15,     8,    49,
-       6,    13,     9,     9,     0,    18,    25,     0,    13,    85,
-      36,    25,    30,    71,    90,    27,     4,     4,    29,     4,
-      46,     5,    11,    49,    59,    98,   102,    85,     7,    64,
-      56,    66,    90,    43,    57,    12,    55,     3,     4,    19,
-      13,    60,    13,    13,    10,    71,     6,    13,     4,     4,
-      16,     4,     4,     4,     4,    27,    14,    23,    21,    85,
-      26,     9,    28,    28,    90,    31,    75,    -1,    34,    -1,
-       3,     4,    -1,    -1,     3,     4,   102,    10,    -1,    -1,
-      13,    10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,
-      23,    -1,    -1,    26,    23,    28,    -1,    26,    31,    28,
-      -1,    34,    31,     3,     4,    34,    -1,     3,    -1,    -1,
-      10,    -1,    -1,    13,    10,    -1,    16,    13,    -1,    -1,
-      16,    -1,    -1,    23,    -1,    -1,    26,    23,    28,     3,
-      26,    31,    28,     3,    34,    31,    10,    -1,    34,    13,
-      10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,    23,
-      -1,    -1,    26,    -1,    28,    -1,    26,    31,    28,    -1,
-      34,    31,     8,     9,    34,    -1,    -1,    -1,    -1,    15,
-      -1,    17,    18,    19,    20,    21,    22,    -1,    24,    -1,
-      -1,     8,     9,    -1,    30,    -1,    32,    33,    15,    35,
-      17,    18,    -1,    20,    21,    22,    -1,    24,    -1,    -1,
-       8,     9,    -1,    30,    -1,    32,    33,    -1,    35,    17,
-      18,    19,    20,    21,    22,    -1,    24,    -1,    -1,     8,
-       9,    -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,
-      -1,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
-      -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,    -1,
-      20,    21,    22,    -1,    24,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    32,    33
+       7,     0,     6,    10,     8,    59,    22,    61,    47,     3,
+      26,    50,    13,     4,     9,    72,    47,    15,     9,    50,
+       7,     0,     0,    10,    13,    19,    27,    26,     4,    86,
+      37,     4,    30,    72,    91,     9,    29,    11,     4,    25,
+      47,     5,     7,    50,    60,    99,   103,    86,    11,    65,
+      57,    67,    91,    44,    58,    12,     6,    56,    19,    13,
+      13,    13,    61,     4,     4,    72,     4,     4,     0,     4,
+       4,    27,    15,    22,    76,    -1,     8,     9,    29,    86,
+      10,    -1,    -1,    -1,    91,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,    -1,   103,     3,     4,    -1,
+      32,    33,    -1,    35,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+      -1,    23,    -1,    -1,    26,    -1,    28,     3,     4,    31,
+      -1,    -1,    34,    -1,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+       3,    23,    -1,    -1,    26,    -1,    28,    10,    -1,    31,
+      13,    -1,    34,    16,     3,    -1,    -1,    -1,    -1,    -1,
+      23,    10,    -1,    26,    13,    28,    -1,    16,    31,    -1,
+      -1,    34,    -1,     3,    23,    -1,    -1,    26,    -1,    28,
+      10,    -1,    31,    13,    -1,    34,    16,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    28,     8,
+       9,    31,    -1,    -1,    34,    -1,    15,    -1,    17,    18,
+      19,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
+      -1,    30,    -1,    32,    33,    15,    35,    17,    18,    -1,
+      20,    21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,
+      30,    -1,    32,    33,    -1,    35,    17,    18,    19,    20,
+      21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,
+      -1,    32,    33,    -1,    35,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,    -1,
+      32,    33,    -1,    35,    17,    18,    -1,    20,    21,    22,
+      -1,    24,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    32,
+      33
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
    state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
-       0,     8,     9,    17,    18,    20,    21,    22,    24,    32,
-      33,    35,    37,    38,    39,    40,    41,    42,    43,    44,
-      46,    47,    52,    53,    54,    55,    41,     3,    10,    13,
-      16,    26,    28,    31,    34,    60,    65,    67,    68,    69,
-      59,    60,    59,    23,    58,    65,    66,    59,    60,    66,
-       0,     0,    40,    11,    41,    15,    19,    30,    38,    45,
-      48,    49,    50,    51,    45,    51,    38,    51,    69,     4,
-      13,    56,    57,    58,    61,    62,    63,    65,    25,     4,
-      29,    64,     4,    60,     4,    56,    61,     5,     7,     4,
-      56,    61,    11,    38,    65,    59,    49,    51,    38,    49,
-      51,    51,    12,    57,    61,    13,    63,    13,    13,     6,
-       4,    61,     4,     4,    61,     4,     4,     4,    49,    57,
-      13,    27,     4,     4,    27
+       0,     0,     8,     9,    17,    18,    20,    21,    22,    24,
+      32,    33,    35,    37,    38,    39,    40,    41,    42,    43,
+      44,    46,    47,    52,    53,    54,    55,    41,     3,    10,
+      13,    16,    26,    28,    31,    34,    60,    65,    67,    68,
+      69,    59,    60,    59,    23,    58,    65,    66,    59,    60,
+      66,     0,     0,    40,    11,    41,    15,    19,    30,    38,
+      45,    48,    49,    50,    51,    45,    51,    38,    51,    69,
+       4,    13,    56,    57,    58,    61,    62,    63,    65,    25,
+       4,    29,    64,     4,    60,     4,    56,    61,     5,     7,
+       4,    56,    61,    11,    38,    65,    59,    49,    51,    38,
+      49,    51,    51,    12,    57,    61,    13,    63,    13,    13,
+       6,     4,    61,     4,     4,    61,     4,     4,     4,    49,
+      57,    13,    27,     4,     4,    27
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
-       0,    36,    37,    38,    38,    39,    39,    40,    40,    40,
-      40,    40,    40,    40,    40,    41,    41,    42,    42,    43,
-      44,    44,    44,    44,    45,    45,    45,    46,    47,    48,
-      49,    49,    49,    49,    49,    50,    50,    51,    52,    52,
-      53,    53,    53,    53,    54,    54,    55,    55,    55,    55,
-      56,    56,    57,    57,    58,    59,    59,    60,    60,    60,
-      60,    61,    62,    62,    63,    64,    64,    65,    65,    65,
-      65,    65,    65,    65,    65,    66,    66,    67,    68,    69,
-      69
+       0,    36,    37,    37,    38,    38,    39,    39,    40,    40,
+      40,    40,    40,    40,    40,    40,    41,    41,    42,    42,
+      43,    44,    44,    44,    44,    45,    45,    45,    46,    47,
+      48,    49,    49,    49,    49,    49,    50,    50,    51,    52,
+      52,    53,    53,    53,    53,    54,    54,    55,    55,    55,
+      55,    56,    56,    57,    57,    58,    59,    59,    60,    60,
+      60,    60,    61,    62,    62,    63,    64,    64,    65,    65,
+      65,    65,    65,    65,    65,    65,    66,    66,    67,    68,
+      69,    69
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
-       0,     2,     2,     1,     1,     1,     2,     1,     1,     1,
-       1,     1,     1,     1,     1,     2,     1,     3,     2,     3,
-       3,     2,     3,     2,     1,     2,     1,     3,     3,     3,
-       3,     2,     2,     1,     1,     2,     1,     3,     3,     3,
-       5,     4,     4,     3,     3,     2,     5,     4,     4,     3,
-       1,     2,     1,     1,     3,     2,     1,     3,     2,     2,
-       1,     1,     2,     1,     3,     4,     3,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
-       1
+       0,     2,     2,     1,     1,     1,     1,     2,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     3,     2,
+       3,     3,     2,     3,     2,     1,     2,     1,     3,     3,
+       3,     3,     2,     2,     1,     1,     2,     1,     3,     3,
+       3,     5,     4,     4,     3,     3,     2,     5,     4,     4,
+       3,     1,     2,     1,     1,     3,     2,     1,     3,     2,
+       2,     1,     1,     2,     1,     3,     4,     3,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
+       3,     1
 };
 
 
@@ -1697,94 +1707,105 @@ yyreduce:
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1701 "handlebars.tab.c"
+#line 1711 "handlebars.tab.c"
     break;
 
-  case 3: /* program: statements  */
-#line 196 "handlebars.y"
+  case 3: /* start: "end of file"  */
+#line 193 "handlebars.y"
+        {
+      // An empty template
+      struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
+      parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
+      return 1;
+    }
+#line 1722 "handlebars.tab.c"
+    break;
+
+  case 4: /* program: statements  */
+#line 202 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1709 "handlebars.tab.c"
+#line 1730 "handlebars.tab.c"
     break;
 
-  case 4: /* program: ""  */
-#line 199 "handlebars.y"
+  case 5: /* program: ""  */
+#line 205 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1718 "handlebars.tab.c"
+#line 1739 "handlebars.tab.c"
     break;
 
-  case 5: /* statements: statement  */
-#line 206 "handlebars.y"
+  case 6: /* statements: statement  */
+#line 212 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1727 "handlebars.tab.c"
+#line 1748 "handlebars.tab.c"
     break;
 
-  case 6: /* statements: statements statement  */
-#line 210 "handlebars.y"
+  case 7: /* statements: statements statement  */
+#line 216 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1736 "handlebars.tab.c"
+#line 1757 "handlebars.tab.c"
     break;
 
-  case 7: /* statement: mustache  */
-#line 217 "handlebars.y"
+  case 8: /* statement: mustache  */
+#line 223 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1744 "handlebars.tab.c"
+#line 1765 "handlebars.tab.c"
     break;
 
-  case 8: /* statement: block  */
-#line 220 "handlebars.y"
+  case 9: /* statement: block  */
+#line 226 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1752 "handlebars.tab.c"
+#line 1773 "handlebars.tab.c"
     break;
 
-  case 9: /* statement: raw_block  */
-#line 223 "handlebars.y"
+  case 10: /* statement: raw_block  */
+#line 229 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1760 "handlebars.tab.c"
+#line 1781 "handlebars.tab.c"
     break;
 
-  case 10: /* statement: partial  */
-#line 226 "handlebars.y"
+  case 11: /* statement: partial  */
+#line 232 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1768 "handlebars.tab.c"
+#line 1789 "handlebars.tab.c"
     break;
 
-  case 11: /* statement: partial_block  */
-#line 229 "handlebars.y"
+  case 12: /* statement: partial_block  */
+#line 235 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1776 "handlebars.tab.c"
+#line 1797 "handlebars.tab.c"
     break;
 
-  case 12: /* statement: content  */
-#line 232 "handlebars.y"
+  case 13: /* statement: content  */
+#line 238 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1784 "handlebars.tab.c"
+#line 1805 "handlebars.tab.c"
     break;
 
-  case 13: /* statement: COMMENT  */
-#line 235 "handlebars.y"
+  case 14: /* statement: COMMENT  */
+#line 241 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1792,11 +1813,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1796 "handlebars.tab.c"
+#line 1817 "handlebars.tab.c"
     break;
 
-  case 14: /* statement: LONG_COMMENT  */
-#line 242 "handlebars.y"
+  case 15: /* statement: LONG_COMMENT  */
+#line 248 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1804,560 +1825,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1808 "handlebars.tab.c"
+#line 1829 "handlebars.tab.c"
     break;
 
-  case 15: /* content: CONTENT content  */
-#line 252 "handlebars.y"
+  case 16: /* content: CONTENT content  */
+#line 258 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1817 "handlebars.tab.c"
+#line 1838 "handlebars.tab.c"
     break;
 
-  case 16: /* content: CONTENT  */
-#line 256 "handlebars.y"
+  case 17: /* content: CONTENT  */
+#line 262 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1825 "handlebars.tab.c"
+#line 1846 "handlebars.tab.c"
     break;
 
-  case 17: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 262 "handlebars.y"
+  case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
+#line 268 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1833 "handlebars.tab.c"
+#line 1854 "handlebars.tab.c"
     break;
 
-  case 18: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 265 "handlebars.y"
+  case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
+#line 271 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1841 "handlebars.tab.c"
+#line 1862 "handlebars.tab.c"
     break;
 
-  case 19: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 271 "handlebars.y"
+  case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
+#line 277 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1849 "handlebars.tab.c"
+#line 1870 "handlebars.tab.c"
     break;
 
-  case 20: /* block: open_block block_intermediate close_block  */
-#line 277 "handlebars.y"
+  case 21: /* block: open_block block_intermediate close_block  */
+#line 283 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1857 "handlebars.tab.c"
+#line 1878 "handlebars.tab.c"
     break;
 
-  case 21: /* block: open_block close_block  */
-#line 280 "handlebars.y"
+  case 22: /* block: open_block close_block  */
+#line 286 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1865 "handlebars.tab.c"
+#line 1886 "handlebars.tab.c"
     break;
 
-  case 22: /* block: open_inverse block_intermediate close_block  */
-#line 283 "handlebars.y"
+  case 23: /* block: open_inverse block_intermediate close_block  */
+#line 289 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1873 "handlebars.tab.c"
+#line 1894 "handlebars.tab.c"
     break;
 
-  case 23: /* block: open_inverse close_block  */
-#line 286 "handlebars.y"
+  case 24: /* block: open_inverse close_block  */
+#line 292 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1881 "handlebars.tab.c"
+#line 1902 "handlebars.tab.c"
     break;
 
-  case 24: /* block_intermediate: inverse_chain  */
-#line 292 "handlebars.y"
+  case 25: /* block_intermediate: inverse_chain  */
+#line 298 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1890 "handlebars.tab.c"
+#line 1911 "handlebars.tab.c"
     break;
 
-  case 25: /* block_intermediate: program inverse_chain  */
-#line 296 "handlebars.y"
+  case 26: /* block_intermediate: program inverse_chain  */
+#line 302 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1899 "handlebars.tab.c"
+#line 1920 "handlebars.tab.c"
     break;
 
-  case 26: /* block_intermediate: program  */
-#line 300 "handlebars.y"
+  case 27: /* block_intermediate: program  */
+#line 306 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1908 "handlebars.tab.c"
+#line 1929 "handlebars.tab.c"
     break;
 
-  case 27: /* open_block: "{{#" intermediate4 "}}"  */
-#line 307 "handlebars.y"
+  case 28: /* open_block: "{{#" intermediate4 "}}"  */
+#line 313 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1918 "handlebars.tab.c"
+#line 1939 "handlebars.tab.c"
     break;
 
-  case 28: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 315 "handlebars.y"
+  case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
+#line 321 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1927 "handlebars.tab.c"
+#line 1948 "handlebars.tab.c"
     break;
 
-  case 29: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 322 "handlebars.y"
+  case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
+#line 328 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1936 "handlebars.tab.c"
+#line 1957 "handlebars.tab.c"
     break;
 
-  case 30: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 329 "handlebars.y"
+  case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
+#line 335 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1944 "handlebars.tab.c"
+#line 1965 "handlebars.tab.c"
     break;
 
-  case 31: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 332 "handlebars.y"
+  case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
+#line 338 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1952 "handlebars.tab.c"
+#line 1973 "handlebars.tab.c"
     break;
 
-  case 32: /* inverse_chain: open_inverse_chain program  */
-#line 335 "handlebars.y"
+  case 33: /* inverse_chain: open_inverse_chain program  */
+#line 341 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1960 "handlebars.tab.c"
+#line 1981 "handlebars.tab.c"
     break;
 
-  case 33: /* inverse_chain: open_inverse_chain  */
-#line 338 "handlebars.y"
+  case 34: /* inverse_chain: open_inverse_chain  */
+#line 344 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1968 "handlebars.tab.c"
+#line 1989 "handlebars.tab.c"
     break;
 
-  case 34: /* inverse_chain: inverse_and_program  */
-#line 341 "handlebars.y"
+  case 35: /* inverse_chain: inverse_and_program  */
+#line 347 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1976 "handlebars.tab.c"
+#line 1997 "handlebars.tab.c"
     break;
 
-  case 35: /* inverse_and_program: INVERSE program  */
-#line 347 "handlebars.y"
+  case 36: /* inverse_and_program: INVERSE program  */
+#line 353 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 1985 "handlebars.tab.c"
+#line 2006 "handlebars.tab.c"
     break;
 
-  case 36: /* inverse_and_program: INVERSE  */
-#line 351 "handlebars.y"
+  case 37: /* inverse_and_program: INVERSE  */
+#line 357 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 1996 "handlebars.tab.c"
+#line 2017 "handlebars.tab.c"
     break;
 
-  case 37: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 360 "handlebars.y"
+  case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
+#line 366 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2005 "handlebars.tab.c"
+#line 2026 "handlebars.tab.c"
     break;
 
-  case 38: /* mustache: "{{" intermediate3 "}}"  */
-#line 367 "handlebars.y"
+  case 39: /* mustache: "{{" intermediate3 "}}"  */
+#line 373 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2014 "handlebars.tab.c"
+#line 2035 "handlebars.tab.c"
     break;
 
-  case 39: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 371 "handlebars.y"
+  case 40: /* mustache: "{{{" intermediate3 "}}}"  */
+#line 377 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2023 "handlebars.tab.c"
+#line 2044 "handlebars.tab.c"
     break;
 
-  case 40: /* partial: "{{>" partial_name params hash "}}"  */
-#line 378 "handlebars.y"
+  case 41: /* partial: "{{>" partial_name params hash "}}"  */
+#line 384 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2032 "handlebars.tab.c"
+#line 2053 "handlebars.tab.c"
     break;
 
-  case 41: /* partial: "{{>" partial_name params "}}"  */
-#line 382 "handlebars.y"
+  case 42: /* partial: "{{>" partial_name params "}}"  */
+#line 388 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2041 "handlebars.tab.c"
+#line 2062 "handlebars.tab.c"
     break;
 
-  case 42: /* partial: "{{>" partial_name hash "}}"  */
-#line 386 "handlebars.y"
+  case 43: /* partial: "{{>" partial_name hash "}}"  */
+#line 392 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2050 "handlebars.tab.c"
+#line 2071 "handlebars.tab.c"
     break;
 
-  case 43: /* partial: "{{>" partial_name "}}"  */
-#line 390 "handlebars.y"
+  case 44: /* partial: "{{>" partial_name "}}"  */
+#line 396 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2059 "handlebars.tab.c"
+#line 2080 "handlebars.tab.c"
     break;
 
-  case 44: /* partial_block: open_partial_block program close_block  */
-#line 397 "handlebars.y"
+  case 45: /* partial_block: open_partial_block program close_block  */
+#line 403 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2067 "handlebars.tab.c"
+#line 2088 "handlebars.tab.c"
     break;
 
-  case 45: /* partial_block: open_partial_block close_block  */
-#line 400 "handlebars.y"
+  case 46: /* partial_block: open_partial_block close_block  */
+#line 406 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2076 "handlebars.tab.c"
+#line 2097 "handlebars.tab.c"
     break;
 
-  case 46: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 406 "handlebars.y"
+  case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
+#line 412 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2085 "handlebars.tab.c"
+#line 2106 "handlebars.tab.c"
     break;
 
-  case 47: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 410 "handlebars.y"
+  case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
+#line 416 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2094 "handlebars.tab.c"
+#line 2115 "handlebars.tab.c"
     break;
 
-  case 48: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 414 "handlebars.y"
+  case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
+#line 420 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2103 "handlebars.tab.c"
+#line 2124 "handlebars.tab.c"
     break;
 
-  case 49: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 418 "handlebars.y"
+  case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
+#line 424 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2112 "handlebars.tab.c"
+#line 2133 "handlebars.tab.c"
     break;
 
-  case 50: /* params: param  */
-#line 425 "handlebars.y"
+  case 51: /* params: param  */
+#line 431 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2121 "handlebars.tab.c"
+#line 2142 "handlebars.tab.c"
     break;
 
-  case 51: /* params: params param  */
-#line 429 "handlebars.y"
+  case 52: /* params: params param  */
+#line 435 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2130 "handlebars.tab.c"
+#line 2151 "handlebars.tab.c"
     break;
 
-  case 52: /* param: helper_name  */
-#line 436 "handlebars.y"
+  case 53: /* param: helper_name  */
+#line 442 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2138 "handlebars.tab.c"
+#line 2159 "handlebars.tab.c"
     break;
 
-  case 53: /* param: sexpr  */
-#line 439 "handlebars.y"
+  case 54: /* param: sexpr  */
+#line 445 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2146 "handlebars.tab.c"
+#line 2167 "handlebars.tab.c"
     break;
 
-  case 54: /* sexpr: "(" intermediate3 ")"  */
-#line 445 "handlebars.y"
+  case 55: /* sexpr: "(" intermediate3 ")"  */
+#line 451 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2154 "handlebars.tab.c"
+#line 2175 "handlebars.tab.c"
     break;
 
-  case 55: /* intermediate4: intermediate3 block_params  */
-#line 451 "handlebars.y"
+  case 56: /* intermediate4: intermediate3 block_params  */
+#line 457 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2164 "handlebars.tab.c"
+#line 2185 "handlebars.tab.c"
     break;
 
-  case 57: /* intermediate3: helper_name params hash  */
-#line 460 "handlebars.y"
+  case 58: /* intermediate3: helper_name params hash  */
+#line 466 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2172 "handlebars.tab.c"
+#line 2193 "handlebars.tab.c"
     break;
 
-  case 58: /* intermediate3: helper_name hash  */
-#line 463 "handlebars.y"
+  case 59: /* intermediate3: helper_name hash  */
+#line 469 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2180 "handlebars.tab.c"
+#line 2201 "handlebars.tab.c"
     break;
 
-  case 59: /* intermediate3: helper_name params  */
-#line 466 "handlebars.y"
+  case 60: /* intermediate3: helper_name params  */
+#line 472 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2188 "handlebars.tab.c"
+#line 2209 "handlebars.tab.c"
     break;
 
-  case 60: /* intermediate3: helper_name  */
-#line 469 "handlebars.y"
+  case 61: /* intermediate3: helper_name  */
+#line 475 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2196 "handlebars.tab.c"
+#line 2217 "handlebars.tab.c"
     break;
 
-  case 61: /* hash: hash_pairs  */
-#line 475 "handlebars.y"
+  case 62: /* hash: hash_pairs  */
+#line 481 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2206 "handlebars.tab.c"
+#line 2227 "handlebars.tab.c"
     break;
 
-  case 62: /* hash_pairs: hash_pairs hash_pair  */
-#line 483 "handlebars.y"
+  case 63: /* hash_pairs: hash_pairs hash_pair  */
+#line 489 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2215 "handlebars.tab.c"
+#line 2236 "handlebars.tab.c"
     break;
 
-  case 63: /* hash_pairs: hash_pair  */
-#line 487 "handlebars.y"
+  case 64: /* hash_pairs: hash_pair  */
+#line 493 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2224 "handlebars.tab.c"
+#line 2245 "handlebars.tab.c"
     break;
 
-  case 64: /* hash_pair: ID "=" param  */
-#line 494 "handlebars.y"
+  case 65: /* hash_pair: ID "=" param  */
+#line 500 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2232 "handlebars.tab.c"
+#line 2253 "handlebars.tab.c"
     break;
 
-  case 65: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 500 "handlebars.y"
+  case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
+#line 506 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2241 "handlebars.tab.c"
+#line 2262 "handlebars.tab.c"
     break;
 
-  case 66: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 504 "handlebars.y"
+  case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
+#line 510 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2250 "handlebars.tab.c"
+#line 2271 "handlebars.tab.c"
     break;
 
-  case 67: /* helper_name: path  */
-#line 511 "handlebars.y"
+  case 68: /* helper_name: path  */
+#line 517 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2258 "handlebars.tab.c"
+#line 2279 "handlebars.tab.c"
     break;
 
-  case 68: /* helper_name: data_name  */
-#line 514 "handlebars.y"
+  case 69: /* helper_name: data_name  */
+#line 520 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2266 "handlebars.tab.c"
+#line 2287 "handlebars.tab.c"
     break;
 
-  case 69: /* helper_name: STRING  */
-#line 517 "handlebars.y"
+  case 70: /* helper_name: STRING  */
+#line 523 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2274 "handlebars.tab.c"
+#line 2295 "handlebars.tab.c"
     break;
 
-  case 70: /* helper_name: SINGLE_STRING  */
-#line 520 "handlebars.y"
+  case 71: /* helper_name: SINGLE_STRING  */
+#line 526 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2282 "handlebars.tab.c"
+#line 2303 "handlebars.tab.c"
     break;
 
-  case 71: /* helper_name: NUMBER  */
-#line 523 "handlebars.y"
+  case 72: /* helper_name: NUMBER  */
+#line 529 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2290 "handlebars.tab.c"
+#line 2311 "handlebars.tab.c"
     break;
 
-  case 72: /* helper_name: BOOLEAN  */
-#line 526 "handlebars.y"
+  case 73: /* helper_name: BOOLEAN  */
+#line 532 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2298 "handlebars.tab.c"
+#line 2319 "handlebars.tab.c"
     break;
 
-  case 73: /* helper_name: "undefined"  */
-#line 529 "handlebars.y"
+  case 74: /* helper_name: "undefined"  */
+#line 535 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2306 "handlebars.tab.c"
+#line 2327 "handlebars.tab.c"
     break;
 
-  case 74: /* helper_name: "NULL"  */
-#line 532 "handlebars.y"
+  case 75: /* helper_name: "NULL"  */
+#line 538 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2314 "handlebars.tab.c"
+#line 2335 "handlebars.tab.c"
     break;
 
-  case 75: /* partial_name: helper_name  */
-#line 538 "handlebars.y"
+  case 76: /* partial_name: helper_name  */
+#line 544 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2322 "handlebars.tab.c"
+#line 2343 "handlebars.tab.c"
     break;
 
-  case 76: /* partial_name: sexpr  */
-#line 541 "handlebars.y"
+  case 77: /* partial_name: sexpr  */
+#line 547 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2330 "handlebars.tab.c"
+#line 2351 "handlebars.tab.c"
     break;
 
-  case 77: /* data_name: DATA path_segments  */
-#line 547 "handlebars.y"
+  case 78: /* data_name: DATA path_segments  */
+#line 553 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2338 "handlebars.tab.c"
+#line 2359 "handlebars.tab.c"
     break;
 
-  case 78: /* path: path_segments  */
-#line 553 "handlebars.y"
+  case 79: /* path: path_segments  */
+#line 559 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2346 "handlebars.tab.c"
+#line 2367 "handlebars.tab.c"
     break;
 
-  case 79: /* path_segments: path_segments SEP ID  */
-#line 559 "handlebars.y"
+  case 80: /* path_segments: path_segments SEP ID  */
+#line 565 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2357 "handlebars.tab.c"
+#line 2378 "handlebars.tab.c"
     break;
 
-  case 80: /* path_segments: ID  */
-#line 565 "handlebars.y"
+  case 81: /* path_segments: ID  */
+#line 571 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2368,11 +2389,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2372 "handlebars.tab.c"
+#line 2393 "handlebars.tab.c"
     break;
 
 
-#line 2376 "handlebars.tab.c"
+#line 2397 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.y b/src/handlebars.y
index bcdc392..31e91c5 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -190,6 +190,12 @@ start :
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
+  | END {
+      // An empty template
+      struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
+      parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &@$);
+      return 1;
+    }
   ;
 
 program :
-- 
2.43.0


From 901ba4995b834d8605da5c342a93d50f8d321f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:04 +0000
Subject: [PATCH 66/73] fix: allocation failures in closures, serialization,
 lmdb cache and JSON values were not noticed or leaked

---
 src/handlebars_cache_lmdb.c        | 3 +++
 src/handlebars_closure.c           | 1 +
 src/handlebars_json.c              | 6 ++----
 src/handlebars_opcode_serializer.c | 2 ++
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index c22ca13..7af410d 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -186,6 +186,9 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Duplicate data
     size = module->size;
     module = handlebars_talloc_size(cache, size);
+    if (unlikely(module == NULL)) {
+        goto error;
+    }
     talloc_set_type(module, struct handlebars_module);
     memcpy(module, data.mv_data, size);
 
diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index b0b875f..d999303 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -313,13 +313,11 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
         case json_type_object:
         case json_type_array:
-            // Increment refcount
-            json_object_get(json);
-
             obj = handlebars_talloc(ctx, struct handlebars_json);
             HANDLEBARS_MEMCHECK(obj, ctx);
             handlebars_user_init((struct handlebars_user *) obj, ctx, &handlebars_value_hbs_json_handlers);
-            obj->object = json;
+            // Increment refcount
+            obj->object = json_object_get(json);
             talloc_set_destructor(obj, handlebars_json_dtor);
             handlebars_value_user(value, (struct handlebars_user *) obj);
             break;
diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index 01ab82e..490f28a 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -244,6 +244,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    HANDLEBARS_MEMCHECK(module, context);
     memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -254,6 +255,7 @@ struct handlebars_module * handlebars_program_serialize(
 
     // Reallocate buffer
     module = handlebars_talloc_realloc_size(context, module, module->size);
+    HANDLEBARS_MEMCHECK(module, context);
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
-- 
2.43.0


From d1286beaeaeab7e6a2fb004d80143b64d1799b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:51 +0000
Subject: [PATCH 67/73] fix: parse errors leaked the stack and the message of
 the generated parser

---
 src/handlebars.y | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/handlebars.y b/src/handlebars.y
index 31e91c5..2bc9225 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -90,6 +90,16 @@ int handlebars_yy_debug = 0;
 #undef CONTEXT
 #define CONTEXT HBSCTX(parser)
 #define scanner parser->scanner
+
+// An error jumps out of the generated parser, so that whatever it allocates has to belong to the parser
+static inline void * handlebars_yy_stack_alloc(struct handlebars_parser * parser, size_t size)
+{
+    void * ptr = handlebars_talloc_size(parser, size);
+    HANDLEBARS_MEMCHECK(ptr, CONTEXT);
+    return ptr;
+}
+#define YYMALLOC(size) handlebars_yy_stack_alloc(parser, size)
+#define YYFREE handlebars_talloc_free
 %}
 
 %union {
-- 
2.43.0


From 21714e25ae7e088f08e38891358bfc1d931812c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 68/73] fix: parse errors leaked the stack and the message of
 the generated parser (generated output)

---
 src/handlebars.tab.c | 348 ++++++++++++++++++++++---------------------
 src/handlebars.tab.h |   2 +-
 2 files changed, 180 insertions(+), 170 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index c2e6714..9fe31e6 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -116,7 +116,17 @@ int handlebars_yy_debug = 0;
 #define CONTEXT HBSCTX(parser)
 #define scanner parser->scanner
 
-#line 120 "handlebars.tab.c"
+// An error jumps out of the generated parser, so that whatever it allocates has to belong to the parser
+static inline void * handlebars_yy_stack_alloc(struct handlebars_parser * parser, size_t size)
+{
+    void * ptr = handlebars_talloc_size(parser, size);
+    HANDLEBARS_MEMCHECK(ptr, CONTEXT);
+    return ptr;
+}
+#define YYMALLOC(size) handlebars_yy_stack_alloc(parser, size)
+#define YYFREE handlebars_talloc_free
+
+#line 130 "handlebars.tab.c"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -606,15 +616,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   193,   202,   205,   212,   216,   223,   226,
-     229,   232,   235,   238,   241,   248,   258,   262,   268,   271,
-     277,   283,   286,   289,   292,   298,   302,   306,   313,   321,
-     328,   335,   338,   341,   344,   347,   353,   357,   366,   373,
-     377,   384,   388,   392,   396,   403,   406,   412,   416,   420,
-     424,   431,   435,   442,   445,   451,   457,   462,   466,   469,
-     472,   475,   481,   489,   493,   500,   506,   510,   517,   520,
-     523,   526,   529,   532,   535,   538,   544,   547,   553,   559,
-     565,   571
+       0,   198,   198,   203,   212,   215,   222,   226,   233,   236,
+     239,   242,   245,   248,   251,   258,   268,   272,   278,   281,
+     287,   293,   296,   299,   302,   308,   312,   316,   323,   331,
+     338,   345,   348,   351,   354,   357,   363,   367,   376,   383,
+     387,   394,   398,   402,   406,   413,   416,   422,   426,   430,
+     434,   441,   445,   452,   455,   461,   467,   472,   476,   479,
+     482,   485,   491,   499,   503,   510,   516,   520,   527,   530,
+     533,   536,   539,   542,   545,   548,   554,   557,   563,   569,
+     575,   581
 };
 #endif
 
@@ -1701,111 +1711,111 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* start: program "end of file"  */
-#line 188 "handlebars.y"
+#line 198 "handlebars.y"
                 {
       parser->program = (yyvsp[-1].ast_node);
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1711 "handlebars.tab.c"
+#line 1721 "handlebars.tab.c"
     break;
 
   case 3: /* start: "end of file"  */
-#line 193 "handlebars.y"
+#line 203 "handlebars.y"
         {
       // An empty template
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
       return 1;
     }
-#line 1722 "handlebars.tab.c"
+#line 1732 "handlebars.tab.c"
     break;
 
   case 4: /* program: statements  */
-#line 202 "handlebars.y"
+#line 212 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1730 "handlebars.tab.c"
+#line 1740 "handlebars.tab.c"
     break;
 
   case 5: /* program: ""  */
-#line 205 "handlebars.y"
+#line 215 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1739 "handlebars.tab.c"
+#line 1749 "handlebars.tab.c"
     break;
 
   case 6: /* statements: statement  */
-#line 212 "handlebars.y"
+#line 222 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1748 "handlebars.tab.c"
+#line 1758 "handlebars.tab.c"
     break;
 
   case 7: /* statements: statements statement  */
-#line 216 "handlebars.y"
+#line 226 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1757 "handlebars.tab.c"
+#line 1767 "handlebars.tab.c"
     break;
 
   case 8: /* statement: mustache  */
-#line 223 "handlebars.y"
+#line 233 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1765 "handlebars.tab.c"
+#line 1775 "handlebars.tab.c"
     break;
 
   case 9: /* statement: block  */
-#line 226 "handlebars.y"
+#line 236 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1773 "handlebars.tab.c"
+#line 1783 "handlebars.tab.c"
     break;
 
   case 10: /* statement: raw_block  */
-#line 229 "handlebars.y"
+#line 239 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1781 "handlebars.tab.c"
+#line 1791 "handlebars.tab.c"
     break;
 
   case 11: /* statement: partial  */
-#line 232 "handlebars.y"
+#line 242 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1789 "handlebars.tab.c"
+#line 1799 "handlebars.tab.c"
     break;
 
   case 12: /* statement: partial_block  */
-#line 235 "handlebars.y"
+#line 245 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1797 "handlebars.tab.c"
+#line 1807 "handlebars.tab.c"
     break;
 
   case 13: /* statement: content  */
-#line 238 "handlebars.y"
+#line 248 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1805 "handlebars.tab.c"
+#line 1815 "handlebars.tab.c"
     break;
 
   case 14: /* statement: COMMENT  */
-#line 241 "handlebars.y"
+#line 251 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1813,11 +1823,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1817 "handlebars.tab.c"
+#line 1827 "handlebars.tab.c"
     break;
 
   case 15: /* statement: LONG_COMMENT  */
-#line 248 "handlebars.y"
+#line 258 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1825,560 +1835,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1829 "handlebars.tab.c"
+#line 1839 "handlebars.tab.c"
     break;
 
   case 16: /* content: CONTENT content  */
-#line 258 "handlebars.y"
+#line 268 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1838 "handlebars.tab.c"
+#line 1848 "handlebars.tab.c"
     break;
 
   case 17: /* content: CONTENT  */
-#line 262 "handlebars.y"
+#line 272 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1846 "handlebars.tab.c"
+#line 1856 "handlebars.tab.c"
     break;
 
   case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 268 "handlebars.y"
+#line 278 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1854 "handlebars.tab.c"
+#line 1864 "handlebars.tab.c"
     break;
 
   case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 271 "handlebars.y"
+#line 281 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1862 "handlebars.tab.c"
+#line 1872 "handlebars.tab.c"
     break;
 
   case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 277 "handlebars.y"
+#line 287 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1870 "handlebars.tab.c"
+#line 1880 "handlebars.tab.c"
     break;
 
   case 21: /* block: open_block block_intermediate close_block  */
-#line 283 "handlebars.y"
+#line 293 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1878 "handlebars.tab.c"
+#line 1888 "handlebars.tab.c"
     break;
 
   case 22: /* block: open_block close_block  */
-#line 286 "handlebars.y"
+#line 296 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1886 "handlebars.tab.c"
+#line 1896 "handlebars.tab.c"
     break;
 
   case 23: /* block: open_inverse block_intermediate close_block  */
-#line 289 "handlebars.y"
+#line 299 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1894 "handlebars.tab.c"
+#line 1904 "handlebars.tab.c"
     break;
 
   case 24: /* block: open_inverse close_block  */
-#line 292 "handlebars.y"
+#line 302 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1902 "handlebars.tab.c"
+#line 1912 "handlebars.tab.c"
     break;
 
   case 25: /* block_intermediate: inverse_chain  */
-#line 298 "handlebars.y"
+#line 308 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1911 "handlebars.tab.c"
+#line 1921 "handlebars.tab.c"
     break;
 
   case 26: /* block_intermediate: program inverse_chain  */
-#line 302 "handlebars.y"
+#line 312 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1920 "handlebars.tab.c"
+#line 1930 "handlebars.tab.c"
     break;
 
   case 27: /* block_intermediate: program  */
-#line 306 "handlebars.y"
+#line 316 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1929 "handlebars.tab.c"
+#line 1939 "handlebars.tab.c"
     break;
 
   case 28: /* open_block: "{{#" intermediate4 "}}"  */
-#line 313 "handlebars.y"
+#line 323 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1939 "handlebars.tab.c"
+#line 1949 "handlebars.tab.c"
     break;
 
   case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 321 "handlebars.y"
+#line 331 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1948 "handlebars.tab.c"
+#line 1958 "handlebars.tab.c"
     break;
 
   case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 328 "handlebars.y"
+#line 338 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1957 "handlebars.tab.c"
+#line 1967 "handlebars.tab.c"
     break;
 
   case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 335 "handlebars.y"
+#line 345 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1965 "handlebars.tab.c"
+#line 1975 "handlebars.tab.c"
     break;
 
   case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 338 "handlebars.y"
+#line 348 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1973 "handlebars.tab.c"
+#line 1983 "handlebars.tab.c"
     break;
 
   case 33: /* inverse_chain: open_inverse_chain program  */
-#line 341 "handlebars.y"
+#line 351 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1981 "handlebars.tab.c"
+#line 1991 "handlebars.tab.c"
     break;
 
   case 34: /* inverse_chain: open_inverse_chain  */
-#line 344 "handlebars.y"
+#line 354 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1989 "handlebars.tab.c"
+#line 1999 "handlebars.tab.c"
     break;
 
   case 35: /* inverse_chain: inverse_and_program  */
-#line 347 "handlebars.y"
+#line 357 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1997 "handlebars.tab.c"
+#line 2007 "handlebars.tab.c"
     break;
 
   case 36: /* inverse_and_program: INVERSE program  */
-#line 353 "handlebars.y"
+#line 363 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 2006 "handlebars.tab.c"
+#line 2016 "handlebars.tab.c"
     break;
 
   case 37: /* inverse_and_program: INVERSE  */
-#line 357 "handlebars.y"
+#line 367 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2017 "handlebars.tab.c"
+#line 2027 "handlebars.tab.c"
     break;
 
   case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 366 "handlebars.y"
+#line 376 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2026 "handlebars.tab.c"
+#line 2036 "handlebars.tab.c"
     break;
 
   case 39: /* mustache: "{{" intermediate3 "}}"  */
-#line 373 "handlebars.y"
+#line 383 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2035 "handlebars.tab.c"
+#line 2045 "handlebars.tab.c"
     break;
 
   case 40: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 377 "handlebars.y"
+#line 387 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2044 "handlebars.tab.c"
+#line 2054 "handlebars.tab.c"
     break;
 
   case 41: /* partial: "{{>" partial_name params hash "}}"  */
-#line 384 "handlebars.y"
+#line 394 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2053 "handlebars.tab.c"
+#line 2063 "handlebars.tab.c"
     break;
 
   case 42: /* partial: "{{>" partial_name params "}}"  */
-#line 388 "handlebars.y"
+#line 398 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2062 "handlebars.tab.c"
+#line 2072 "handlebars.tab.c"
     break;
 
   case 43: /* partial: "{{>" partial_name hash "}}"  */
-#line 392 "handlebars.y"
+#line 402 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2071 "handlebars.tab.c"
+#line 2081 "handlebars.tab.c"
     break;
 
   case 44: /* partial: "{{>" partial_name "}}"  */
-#line 396 "handlebars.y"
+#line 406 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2080 "handlebars.tab.c"
+#line 2090 "handlebars.tab.c"
     break;
 
   case 45: /* partial_block: open_partial_block program close_block  */
-#line 403 "handlebars.y"
+#line 413 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2088 "handlebars.tab.c"
+#line 2098 "handlebars.tab.c"
     break;
 
   case 46: /* partial_block: open_partial_block close_block  */
-#line 406 "handlebars.y"
+#line 416 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2097 "handlebars.tab.c"
+#line 2107 "handlebars.tab.c"
     break;
 
   case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 412 "handlebars.y"
+#line 422 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2106 "handlebars.tab.c"
+#line 2116 "handlebars.tab.c"
     break;
 
   case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 416 "handlebars.y"
+#line 426 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2115 "handlebars.tab.c"
+#line 2125 "handlebars.tab.c"
     break;
 
   case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 420 "handlebars.y"
+#line 430 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2124 "handlebars.tab.c"
+#line 2134 "handlebars.tab.c"
     break;
 
   case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 424 "handlebars.y"
+#line 434 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2133 "handlebars.tab.c"
+#line 2143 "handlebars.tab.c"
     break;
 
   case 51: /* params: param  */
-#line 431 "handlebars.y"
+#line 441 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2142 "handlebars.tab.c"
+#line 2152 "handlebars.tab.c"
     break;
 
   case 52: /* params: params param  */
-#line 435 "handlebars.y"
+#line 445 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2151 "handlebars.tab.c"
+#line 2161 "handlebars.tab.c"
     break;
 
   case 53: /* param: helper_name  */
-#line 442 "handlebars.y"
+#line 452 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2159 "handlebars.tab.c"
+#line 2169 "handlebars.tab.c"
     break;
 
   case 54: /* param: sexpr  */
-#line 445 "handlebars.y"
+#line 455 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2167 "handlebars.tab.c"
+#line 2177 "handlebars.tab.c"
     break;
 
   case 55: /* sexpr: "(" intermediate3 ")"  */
-#line 451 "handlebars.y"
+#line 461 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2175 "handlebars.tab.c"
+#line 2185 "handlebars.tab.c"
     break;
 
   case 56: /* intermediate4: intermediate3 block_params  */
-#line 457 "handlebars.y"
+#line 467 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2185 "handlebars.tab.c"
+#line 2195 "handlebars.tab.c"
     break;
 
   case 58: /* intermediate3: helper_name params hash  */
-#line 466 "handlebars.y"
+#line 476 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2193 "handlebars.tab.c"
+#line 2203 "handlebars.tab.c"
     break;
 
   case 59: /* intermediate3: helper_name hash  */
-#line 469 "handlebars.y"
+#line 479 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2201 "handlebars.tab.c"
+#line 2211 "handlebars.tab.c"
     break;
 
   case 60: /* intermediate3: helper_name params  */
-#line 472 "handlebars.y"
+#line 482 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2209 "handlebars.tab.c"
+#line 2219 "handlebars.tab.c"
     break;
 
   case 61: /* intermediate3: helper_name  */
-#line 475 "handlebars.y"
+#line 485 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2217 "handlebars.tab.c"
+#line 2227 "handlebars.tab.c"
     break;
 
   case 62: /* hash: hash_pairs  */
-#line 481 "handlebars.y"
+#line 491 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2227 "handlebars.tab.c"
+#line 2237 "handlebars.tab.c"
     break;
 
   case 63: /* hash_pairs: hash_pairs hash_pair  */
-#line 489 "handlebars.y"
+#line 499 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2236 "handlebars.tab.c"
+#line 2246 "handlebars.tab.c"
     break;
 
   case 64: /* hash_pairs: hash_pair  */
-#line 493 "handlebars.y"
+#line 503 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2245 "handlebars.tab.c"
+#line 2255 "handlebars.tab.c"
     break;
 
   case 65: /* hash_pair: ID "=" param  */
-#line 500 "handlebars.y"
+#line 510 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2253 "handlebars.tab.c"
+#line 2263 "handlebars.tab.c"
     break;
 
   case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 506 "handlebars.y"
+#line 516 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2262 "handlebars.tab.c"
+#line 2272 "handlebars.tab.c"
     break;
 
   case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 510 "handlebars.y"
+#line 520 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2271 "handlebars.tab.c"
+#line 2281 "handlebars.tab.c"
     break;
 
   case 68: /* helper_name: path  */
-#line 517 "handlebars.y"
+#line 527 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2279 "handlebars.tab.c"
+#line 2289 "handlebars.tab.c"
     break;
 
   case 69: /* helper_name: data_name  */
-#line 520 "handlebars.y"
+#line 530 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2287 "handlebars.tab.c"
+#line 2297 "handlebars.tab.c"
     break;
 
   case 70: /* helper_name: STRING  */
-#line 523 "handlebars.y"
+#line 533 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2295 "handlebars.tab.c"
+#line 2305 "handlebars.tab.c"
     break;
 
   case 71: /* helper_name: SINGLE_STRING  */
-#line 526 "handlebars.y"
+#line 536 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2303 "handlebars.tab.c"
+#line 2313 "handlebars.tab.c"
     break;
 
   case 72: /* helper_name: NUMBER  */
-#line 529 "handlebars.y"
+#line 539 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2311 "handlebars.tab.c"
+#line 2321 "handlebars.tab.c"
     break;
 
   case 73: /* helper_name: BOOLEAN  */
-#line 532 "handlebars.y"
+#line 542 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2319 "handlebars.tab.c"
+#line 2329 "handlebars.tab.c"
     break;
 
   case 74: /* helper_name: "undefined"  */
-#line 535 "handlebars.y"
+#line 545 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2327 "handlebars.tab.c"
+#line 2337 "handlebars.tab.c"
     break;
 
   case 75: /* helper_name: "NULL"  */
-#line 538 "handlebars.y"
+#line 548 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2335 "handlebars.tab.c"
+#line 2345 "handlebars.tab.c"
     break;
 
   case 76: /* partial_name: helper_name  */
-#line 544 "handlebars.y"
+#line 554 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2343 "handlebars.tab.c"
+#line 2353 "handlebars.tab.c"
     break;
 
   case 77: /* partial_name: sexpr  */
-#line 547 "handlebars.y"
+#line 557 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2351 "handlebars.tab.c"
+#line 2361 "handlebars.tab.c"
     break;
 
   case 78: /* data_name: DATA path_segments  */
-#line 553 "handlebars.y"
+#line 563 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2359 "handlebars.tab.c"
+#line 2369 "handlebars.tab.c"
     break;
 
   case 79: /* path: path_segments  */
-#line 559 "handlebars.y"
+#line 569 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2367 "handlebars.tab.c"
+#line 2377 "handlebars.tab.c"
     break;
 
   case 80: /* path_segments: path_segments SEP ID  */
-#line 565 "handlebars.y"
+#line 575 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2378 "handlebars.tab.c"
+#line 2388 "handlebars.tab.c"
     break;
 
   case 81: /* path_segments: ID  */
-#line 571 "handlebars.y"
+#line 581 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2389,11 +2399,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2393 "handlebars.tab.c"
+#line 2403 "handlebars.tab.c"
     break;
 
 
-#line 2397 "handlebars.tab.c"
+#line 2407 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.tab.h b/src/handlebars.tab.h
index 8fc7957..ba01a12 100644
--- a/src/handlebars.tab.h
+++ b/src/handlebars.tab.h
@@ -114,7 +114,7 @@ extern int handlebars_yy_debug;
 #if ! defined YYSTYPE && ! defined YYSTYPE_IS_DECLARED
 union YYSTYPE
 {
-#line 95 "handlebars.y"
+#line 105 "handlebars.y"
 
     struct handlebars_string * string;
     struct handlebars_ast_node * ast_node;
-- 
2.43.0


From b46177076e3f33e74567dfd4341ede8f711dff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:54 +0000
Subject: [PATCH 69/73] fix: printing a tree after it was compiled crashed on
 partials without a context

---
 src/handlebars_compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index c55d39a..469f11b 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -849,6 +849,7 @@ static inline void _handlebars_compiler_accept_partial(
 				}
 			}
 			tmp = talloc_steal(params, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH));
+			tmp->node.path.parts = talloc_steal(tmp, handlebars_ast_list_ctor(CONTEXT));
 			handlebars_ast_list_append(params, tmp);
     	}
     }
-- 
2.43.0


From 90c83474bf4ab3a4aacae1b0a2214a67f1edf035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 70/73] fix: alternate decorators with paths or subexpressions
 crashed the compiler

---
 src/handlebars_compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 469f11b..b336fc9 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -990,6 +990,8 @@ static inline void handlebars_compiler_accept_decorator(
 
         origcompiler = compiler;
         subcompiler = talloc_steal(compiler, handlebars_compiler_ctor(CONTEXT));
+        subcompiler->bps = compiler->bps;
+        subcompiler->sns = compiler->sns;
         program->decorators[program->decorators_length++] = talloc_steal(program, subcompiler->program);
         compiler = subcompiler;
 
-- 
2.43.0


From 69a6065dde30de367cf0553d699665f4eebe9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:39 +0000
Subject: [PATCH 71/73] fix: calling the context under known helpers only
 crashed the compiler

---
 src/handlebars_compiler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index b336fc9..4487012 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1114,6 +1114,9 @@ static inline void handlebars_compiler_accept_sexpr_helper(
     assert(path->type == HANDLEBARS_AST_NODE_PATH);
 
     name = handlebars_ast_node_get_id_part(path);
+    if( name == NULL ) { // the path is the context itself
+        name = path->node.path.original;
+    }
 
     if( handlebars_compiler_is_known_helper(compiler, path) ) {
         struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_invoke_known_helper);
-- 
2.43.0


From c59e50dfbc0e505bc078a92214189253b8fe6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 72/73] fix: a NUL in a template made the lexer read past its
 tables

---
 configure            |     2 +-
 configure.ac         |     2 +-
 src/handlebars.lex.c | 10959 ++++++++++++++++++++++-------------------
 3 files changed, 5924 insertions(+), 5039 deletions(-)

diff --git a/configure b/configure
index eca68f6..3c02fba 100755
--- a/configure
+++ b/configure
@@ -20716,7 +20716,7 @@ fi
 
 if test "x$FLEXFLAGS" == "x"
 then :
-  FLEXFLAGS="--noreject --fast --align"
+  FLEXFLAGS="--noreject --full --align"
 fi
 
 # Check whether --enable-flex was given.
diff --git a/configure.ac b/configure.ac
index 45c3b3e..6ffa14b 100644
--- a/configure.ac
+++ b/configure.ac
@@ -242,7 +242,7 @@ AM_CONDITIONAL(DOXYGEN, [test "x$DOXYGEN" != "x"])
 
 # flex
 AC_ARG_VAR([FLEXFLAGS], [flex flags])
-AS_IF([test "x$FLEXFLAGS" == "x"], [FLEXFLAGS="--noreject --fast --align"])
+AS_IF([test "x$FLEXFLAGS" == "x"], [FLEXFLAGS="--noreject --full --align"])
 
 AC_ARG_ENABLE([flex], [AS_HELP_STRING([--disable-flex], [disable support for flex])], [])
 AS_IF([test "x$enable_flex" != "xno"], [
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 505f9c2..4c5b806 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -574,10 +574,5860 @@ void yyfree ( void * , yyscan_t yyscanner );
 #define YY_SKIP_YYWRAP
 typedef flex_uint8_t YY_CHAR;
 
-typedef const struct yy_trans_info *yy_state_type;
+typedef int yy_state_type;
 
 #define yytext_ptr yytext_r
 
+static const flex_int32_t yy_nxt[][256] =
+    {
+    {
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0
+    },
+
+    {
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       15,   14,   14,   15,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   16,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   17,   14,   18,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14
+    },
+
+    {
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       15,   14,   14,   15,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   16,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   17,   14,   18,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14
+    },
+
+    {
+       13,   20,   20,   20,   20,   20,   20,   20,   20,   21,
+       22,   20,   20,   21,   20,   20,   20,   20,   20,   20,
+
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   21,   23,   24,   23,   20,   23,   23,   25,
+       26,   27,   23,   23,   23,   28,   29,   30,   31,   31,
+       31,   31,   31,   31,   31,   31,   31,   31,   20,   23,
+       23,   32,   23,   20,   33,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   34,   23,   23,   23,   20,   23,   35,   20,   20,
+       20,   20,   36,   20,   20,   20,   20,   20,   20,   20,
+       37,   20,   20,   20,   20,   20,   38,   39,   20,   20,
+
+       20,   20,   20,   40,   41,   42,   43,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20
+    },
+
+    {
+       13,   20,   20,   20,   20,   20,   20,   20,   20,   21,
+       22,   20,   20,   21,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   21,   23,   24,   23,   20,   23,   23,   25,
+       26,   27,   23,   23,   23,   28,   29,   30,   31,   31,
+       31,   31,   31,   31,   31,   31,   31,   31,   20,   23,
+
+       23,   32,   23,   20,   33,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   34,   23,   23,   23,   20,   23,   35,   20,   20,
+       20,   20,   36,   20,   20,   20,   20,   20,   20,   20,
+       37,   20,   20,   20,   20,   20,   38,   39,   20,   20,
+       20,   20,   20,   40,   41,   42,   43,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20
+
+    },
+
+    {
+       13,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       45,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44
+    },
+
+    {
+       13,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       45,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44
+    },
+
+    {
+       13,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   47,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46
+    },
+
+    {
+       13,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   47,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46
+    },
+
+    {
+       13,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   49,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48
+
+    },
+
+    {
+       13,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   49,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48
+    },
+
+    {
+       13,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   51,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50
+    },
+
+    {
+       13,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   51,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50
+    },
+
+    {
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13
+    },
+
+    {
+       13,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       54,   53,   53,   54,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   55,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,  -14,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53
+
+    },
+
+    {
+       13,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+       54,  -15,  -15,   54,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,   55,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15
+    },
+
+    {
+       13,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,   56,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,   57,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16
+    },
+
+    {
+       13,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,   58,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17
+    },
+
+    {
+       13,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       54,   53,   53,   54,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   55,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,  -18,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53
+    },
+
+    {
+       13,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -20,  -20,  -20,   59,  -20,  -20,  -20,
+      -20,   60,  -20,  -20,  -20,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -20,
+      -20,   60,  -20,   59,  -20,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -20,  -20,  -20,  -20,   59,  -20,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -20,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,   61,
+       61,  -21,  -21,   61,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,   61,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21
+    },
+
+    {
+       13,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,   61,
+       61,  -22,  -22,   61,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,   61,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22
+    },
+
+    {
+       13,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   63,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   66,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26
+    },
+
+    {
+       13,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -28,  -28,  -28,   59,  -28,  -28,  -28,
+      -28,   60,  -28,  -28,  -28,   59,   60,   60,   68,   68,
+       68,   68,   68,   68,   68,   68,   68,   68,   59,  -28,
+      -28,   60,  -28,   59,  -28,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -28,  -28,  -28,  -28,   59,  -28,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -28,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,   69,
+       69,  -29,  -29,   69,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,   69,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,   69,  -29,  -29,  -29,  -29,   70,   69,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+
+      -29,   69,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,   69,   69,   69,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29
+
+    },
+
+    {
+       13,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   71,
+       71,   59,   59,   71,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   71,  -31,  -31,  -31,   59,  -31,  -31,  -31,
+
+      -31,   71,  -31,  -31,  -31,   59,   72,   60,   68,   68,
+       68,   68,   68,   68,   68,   68,   68,   68,   59,  -31,
+      -31,   60,  -31,   59,  -31,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -31,  -31,  -31,  -31,   59,  -31,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -31,   60,   71,   71,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32
+    },
+
+    {
+       13,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   75,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -35,  -35,  -35,   59,  -35,  -35,  -35,
+      -35,   60,  -35,  -35,  -35,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -35,
+      -35,   60,  -35,   59,  -35,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -35,  -35,  -35,  -35,   59,  -35,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   76,   59,   59,   59,   59,
+       59,   59,   59,  -35,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -36,  -36,  -36,   59,  -36,  -36,  -36,
+
+      -36,   60,  -36,  -36,  -36,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -36,
+      -36,   60,  -36,   59,  -36,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -36,  -36,  -36,  -36,   59,  -36,   77,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -36,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -37,  -37,  -37,   59,  -37,  -37,  -37,
+      -37,   60,  -37,  -37,  -37,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -37,
+      -37,   60,  -37,   59,  -37,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -37,  -37,  -37,  -37,   59,  -37,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   78,   59,   59,
+       59,   59,   59,  -37,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -38,  -38,  -38,   59,  -38,  -38,  -38,
+      -38,   60,  -38,  -38,  -38,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -38,
+      -38,   60,  -38,   59,  -38,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -38,  -38,  -38,  -38,   59,  -38,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   79,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -38,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -39,  -39,  -39,   59,  -39,  -39,  -39,
+      -39,   60,  -39,  -39,  -39,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -39,
+
+      -39,   60,  -39,   59,  -39,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -39,  -39,  -39,  -39,   59,  -39,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       80,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -39,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,   81,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40
+    },
+
+    {
+       13,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41
+    },
+
+    {
+       13,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,   82,   83,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42
+    },
+
+    {
+       13,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,   84,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43
+    },
+
+    {
+       13,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44
+
+    },
+
+    {
+       13,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45
+    },
+
+    {
+       13,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46
+    },
+
+    {
+       13,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,   85,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   87,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   88,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+
+    },
+
+    {
+       13,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,  -50,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89
+    },
+
+    {
+       13,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,   90,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51
+    },
+
+    {
+       13,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52
+    },
+
+    {
+       13,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       54,   53,   53,   54,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   55,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,  -53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   53,
+       53,   53,   53,   53,   53,   53
+    },
+
+    {
+       13,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+       54,  -54,  -54,   54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,   55,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54
+
+    },
+
+    {
+       13,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,   91,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55
+    },
+
+    {
+       13,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,   92,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56
+    },
+
+    {
+       13,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,   93,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57
+    },
+
+    {
+       13,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,   94,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -59,  -59,  -59,   59,  -59,  -59,  -59,
+      -59,   60,  -59,  -59,  -59,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -59,
+
+      -59,   60,  -59,   59,  -59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -59,  -59,  -59,  -59,   59,  -59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -59,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60
+    },
+
+    {
+       13,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,   61,
+       61,  -61,  -61,   61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,   61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   63,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+    },
+
+    {
+       13,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   95,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   66,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   96,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   71,
+       71,   59,   59,   71,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   71,  -68,  -68,  -68,   59,  -68,  -68,  -68,
+      -68,   71,  -68,  -68,  -68,   59,   72,   60,   68,   68,
+       68,   68,   68,   68,   68,   68,   68,   68,   59,  -68,
+      -68,   60,  -68,   59,  -68,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -68,  -68,  -68,  -68,   59,  -68,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -68,   60,   71,   71,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69
+
+    },
+
+    {
+       13,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70
+    },
+
+    {
+       13,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71
+    },
+
+    {
+       13,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,   97,   97,
+       97,   97,   97,   97,   97,   97,   97,   97,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   75,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   98,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+
+    },
+
+    {
+       13,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   99,
+       99,   59,   59,   99,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   99,  -76,  -76,  -76,   59,  -76,  -76,  -76,
+
+      -76,   60,  -76,  -76,  -76,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -76,
+      -76,   60,  -76,   59,  -76,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -76,  -76,  -76,  -76,   59,  -76,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -76,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -77,  -77,  -77,   59,  -77,  -77,  -77,
+      -77,   60,  -77,  -77,  -77,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -77,
+      -77,   60,  -77,   59,  -77,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -77,  -77,  -77,  -77,   59,  -77,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,  100,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -77,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -78,  -78,  -78,   59,  -78,  -78,  -78,
+      -78,   60,  -78,  -78,  -78,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -78,
+      -78,   60,  -78,   59,  -78,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -78,  -78,  -78,  -78,   59,  -78,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,  101,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -78,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -79,  -79,  -79,   59,  -79,  -79,  -79,
+      -79,   60,  -79,  -79,  -79,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -79,
+
+      -79,   60,  -79,   59,  -79,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -79,  -79,  -79,  -79,   59,  -79,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,  102,   59,   59,
+       59,   59,   59,  -79,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -80,  -80,  -80,   59,  -80,  -80,  -80,
+      -80,   60,  -80,  -80,  -80,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -80,
+      -80,   60,  -80,   59,  -80,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -80,  -80,  -80,  -80,   59,  -80,   59,   59,   59,
+
+      103,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -80,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  104,
+      104,  -81,  -81,  104,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  104,  105,  -81,  106,  -81,  -81,  107,  -81,
+
+      -81,  -81,  108,  -81,  -81,  -81,  -81,  109,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  110,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  111,  -81,  -81,  -81,  -81,  -81,
+      -81,  112,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  113,  -81,  -81,  114,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81
+    },
+
+    {
+       13,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  115,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82
+    },
+
+    {
+       13,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+
+      -83,  -83,  -83,  -83,  -83,  116,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83
+    },
+
+    {
+       13,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  117,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84
+
+    },
+
+    {
+       13,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  118,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  119,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   87,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   88,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88
+    },
+
+    {
+       13,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,  -89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89
+
+    },
+
+    {
+       13,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  120,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90
+    },
+
+    {
+       13,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  121,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91
+    },
+
+    {
+       13,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  122,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92
+    },
+
+    {
+       13,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      124,  123,  123,  124,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  -93,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  125,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123
+    },
+
+    {
+       13,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94
+
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   63,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   66,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  126,
+      126,  -97,  -97,  126,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  126,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  126,  -97,  -97,  -97,  -97,  -97,  -97,   97,   97,
+       97,   97,   97,   97,   97,   97,   97,   97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  126,  126,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   75,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+    },
+
+    {
+       13,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  127,
+      127,  -99,  -99,  127,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  127,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  128,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -100, -100, -100,   59, -100, -100, -100,
+     -100,   60, -100, -100, -100,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -100,
+     -100,   60, -100,   59, -100,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -100, -100, -100, -100,   59, -100,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,  129,   59,   59,   59,   59,
+       59,   59,   59, -100,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -101, -101, -101,   59, -101, -101, -101,
+
+     -101,   60, -101, -101, -101,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -101,
+     -101,   60, -101,   59, -101,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -101, -101, -101, -101,   59, -101,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,  130,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -101,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -102, -102, -102,   59, -102, -102, -102,
+     -102,   60, -102, -102, -102,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -102,
+     -102,   60, -102,   59, -102,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -102, -102, -102, -102,   59, -102,   59,   59,   59,
+       59,  131,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -102,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -103, -103, -103,   59, -103, -103, -103,
+     -103,   60, -103, -103, -103,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -103,
+     -103,   60, -103,   59, -103,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -103, -103, -103, -103,   59, -103,   59,   59,   59,
+       59,  132,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59, -103,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -104, -104, -104, -104, -104, -104, -104, -104,  104,
+      104, -104, -104,  104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104,  104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104,  112, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104
+
+    },
+
+    {
+       13, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105,  133, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105
+    },
+
+    {
+       13, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106,  134, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106,  135, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106
+    },
+
+    {
+       13, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107
+    },
+
+    {
+       13, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108
+    },
+
+    {
+       13, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109
+
+    },
+
+    {
+       13, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110
+    },
+
+    {
+       13, -111, -111, -111, -111, -111, -111, -111, -111,  136,
+      136, -111, -111,  136, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111,  136, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111,  137,  138, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111
+    },
+
+    {
+       13, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112,  139, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112
+    },
+
+    {
+       13, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113,  140, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113
+    },
+
+    {
+       13, -114, -114, -114, -114, -114, -114, -114, -114,  104,
+      104, -114, -114,  104, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114,  104,  105, -114,  106, -114, -114,  107, -114,
+     -114, -114,  108, -114, -114, -114, -114,  109, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+
+     -114, -114,  110, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114,  111, -114, -114, -114, -114, -114,
+     -114,  112, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114,  141, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114
+
+    },
+
+    {
+       13, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115,  142, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115
+    },
+
+    {
+       13, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116,  143, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116
+    },
+
+    {
+       13, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117
+    },
+
+    {
+       13,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  145,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144
+    },
+
+    {
+       13, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119,  118, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119
+
+    },
+
+    {
+       13, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120,  146, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120
+    },
+
+    {
+       13, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121,  147, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121
+    },
+
+    {
+       13, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122,  148, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122
+    },
+
+    {
+       13,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      124,  123,  123,  124,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123, -123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123, -123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123
+    },
+
+    {
+       13, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+      124, -124, -124,  124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124
+
+    },
+
+    {
+       13,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      124,  123,  123,  124,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123, -125,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123, -125,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123
+    },
+
+    {
+       13, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126
+    },
+
+    {
+       13, -127, -127, -127, -127, -127, -127, -127, -127,  127,
+      127, -127, -127,  127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127,  127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127,  128, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127
+    },
+
+    {
+       13, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -129, -129, -129,   59, -129, -129, -129,
+     -129,   60, -129, -129, -129,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -129,
+
+     -129,   60, -129,   59, -129,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -129, -129, -129, -129,   59, -129,   59,   59,   59,
+       59,  149,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -129,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  150,
+      150,   59,   59,  150,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  150, -130, -130, -130,   59, -130, -130, -130,
+     -130,  150, -130, -130, -130,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -130,
+     -130,   60, -130,   59, -130,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -130, -130, -130, -130,   59, -130,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -130,   60,  150,  150,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  151,
+      151,   59,   59,  151,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  151, -131, -131, -131,   59, -131, -131, -131,
+
+     -131,  151, -131, -131, -131,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -131,
+     -131,   60, -131,   59, -131,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -131, -131, -131, -131,   59, -131,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -131,   60,  151,  151,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -132, -132, -132,   59, -132, -132, -132,
+     -132,   60, -132, -132, -132,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -132,
+     -132,   60, -132,   59, -132,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -132, -132, -132, -132,   59, -132,   59,   59,   59,
+       59,   59,  152,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -132,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133,  153, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133
+    },
+
+    {
+       13, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134
+
+    },
+
+    {
+       13, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135
+    },
+
+    {
+       13, -136, -136, -136, -136, -136, -136, -136, -136,  136,
+      136, -136, -136,  136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136,  136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136,  137,  138, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136
+    },
+
+    {
+       13, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137,  154, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137
+    },
+
+    {
+       13, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138,  137, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138
+    },
+
+    {
+       13, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139,  155, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139
+
+    },
+
+    {
+       13, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140
+    },
+
+    {
+       13, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141
+    },
+
+    {
+       13, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142
+    },
+
+    {
+       13, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143
+    },
+
+    {
+       13,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  145,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144,  144,  144,  144,  144,
+      144,  144,  144,  144,  144,  144
+
+    },
+
+    {
+       13,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  157,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156
+    },
+
+    {
+       13,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+
+      158,  158,  158,  158,  158,  158,  158,  159,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+
+      158,  158,  158,  158,  158,  158,  158,  158,  158,  158,
+      158,  158,  158,  158,  158,  158
+    },
+
+    {
+       13, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147,  160, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147
+    },
+
+    {
+       13, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148, -148, -148, -148, -148,
+     -148, -148, -148, -148, -148, -148
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  161,
+      161,   59,   59,  161,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  161, -149, -149, -149,   59, -149, -149, -149,
+     -149,  161, -149, -149, -149,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -149,
+
+     -149,   60, -149,   59, -149,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -149, -149, -149, -149,   59, -149,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -149,   60,  161,  161,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150
+    },
+
+    {
+       13, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -152, -152, -152,   59, -152, -152, -152,
+     -152,   60, -152, -152, -152,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -152,
+     -152,   60, -152,   59, -152,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -152, -152, -152, -152,   59, -152,   59,   59,   59,
+       59,   59,   59,   59,   59,  162,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -152,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153
+    },
+
+    {
+       13, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154
+
+    },
+
+    {
+       13, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+
+     -155,  163, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155
+    },
+
+    {
+       13,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  164,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156
+    },
+
+    {
+       13,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  157,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  166,  167,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165,  165,  165,  165,  165,
+      165,  165,  165,  165,  165,  165
+    },
+
+    {
+       13, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158
+    },
+
+    {
+       13,  168,  168,  168,  168,  168,  168,  168,  168, -159,
+     -159,  168,  168, -159,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168, -159, -159, -159, -159,  168, -159, -159, -159,
+     -159, -159, -159, -159, -159,  168, -159, -159,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168, -159,
+
+     -159, -159, -159,  168, -159,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168, -159, -159, -159, -159,  168, -159,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168, -159, -159, -159, -159,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168
+
+    },
+
+    {
+       13, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160, -160, -160, -160, -160,
+     -160, -160, -160, -160, -160, -160
+    },
+
+    {
+       13, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -162, -162, -162,   59, -162, -162, -162,
+     -162,   60, -162, -162, -162,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -162,
+     -162,   60, -162,   59, -162,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -162, -162, -162, -162,   59, -162,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+      169,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -162,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -163, -163, -163, -163, -163, -163, -163, -163,  170,
+      170, -163, -163,  170, -163, -163, -163, -163, -163, -163,
+
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163,  170, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+
+     -163, -163, -163, -163, -163,  171,  172, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163, -163, -163, -163, -163,
+     -163, -163, -163, -163, -163, -163
+    },
+
+    {
+       13,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  157,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156
+
+    },
+
+    {
+       13,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  164,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173
+    },
+
+    {
+       13,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+
+      174,  174,  174,  174,  174,  164,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  175,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174
+    },
+
+    {
+       13,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  164,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  166,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
+      174,  174,  174,  174,  174,  174
+    },
+
+    {
+       13,  168,  168,  168,  168,  168,  168,  168,  168, -168,
+     -168,  168,  168, -168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168, -168, -168, -168, -168,  168, -168, -168, -168,
+     -168, -168, -168, -168, -168,  168, -168, -168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168, -168,
+     -168, -168, -168,  168, -168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168, -168, -168, -168, -168,  168, -168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168, -168, -168,  176, -168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -169, -169, -169,   59, -169, -169, -169,
+     -169,   60, -169, -169, -169,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -169,
+
+     -169,   60, -169,   59, -169,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -169, -169, -169, -169,   59, -169,   59,   59,   59,
+       59,  177,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -169,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13, -170, -170, -170, -170, -170, -170, -170, -170,  170,
+      170, -170, -170,  170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170,  170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170,  171,  172, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170, -170, -170, -170, -170,
+     -170, -170, -170, -170, -170, -170
+    },
+
+    {
+       13, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171,  178, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171
+    },
+
+    {
+       13, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172,  171, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172
+    },
+
+    {
+       13,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  164,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173,  173,  173,  173,  173,
+      173,  173,  173,  173,  173,  173
+    },
+
+    {
+       13,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  164,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179
+
+    },
+
+    {
+       13, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175
+    },
+
+    {
+       13, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176,  180, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -177, -177, -177,   59, -177, -177, -177,
+     -177,   60, -177, -177, -177,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -177,
+     -177,   60, -177,   59, -177,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -177, -177, -177, -177,   59, -177,   59,   59,   59,
+      181,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -177,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178
+    },
+
+    {
+       13,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  164,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179,  179,  179,  179,  179,
+      179,  179,  179,  179,  179,  179
+
+    },
+
+    {
+       13, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180,  182, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  183,
+      183,   59,   59,  183,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  183, -181, -181, -181,   59, -181, -181, -181,
+
+     -181,  183, -181, -181, -181,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -181,
+     -181,   60, -181,   59, -181,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -181, -181, -181, -181,   59, -181,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -181,   60,  183,  183,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182,  184, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182
+    },
+
+    {
+       13, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183, -183, -183, -183, -183,
+     -183, -183, -183, -183, -183, -183
+    },
+
+    {
+       13, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184
+
+    },
+
+    } ;
+
 static yy_state_type yy_get_previous_state ( yyscan_t yyscanner );
 static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  , yyscan_t yyscanner);
 static int yy_get_next_buffer ( yyscan_t yyscanner );
@@ -594,5018 +6444,35 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_c_buf_p = yy_cp;
 #define YY_NUM_RULES 52
 #define YY_END_OF_BUFFER 53
+/* This struct is not used in this scanner,
+   but its presence is necessary. */
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[22926] =
-    {
- {   0,   0 }, {   0,22670 }, {   0,   2 }, {   0,22668 }, {   1,3096 },
- {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
- {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
- {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
- {  17,3096 }, {  18,3096 }, {  19,3096 }, {  20,3096 }, {  21,3096 },
- {  22,3096 }, {  23,3096 }, {  24,3096 }, {  25,3096 }, {  26,3096 },
- {  27,3096 }, {  28,3096 }, {  29,3096 }, {  30,3096 }, {  31,3096 },
- {  32,3096 }, {  33,3096 }, {  34,3096 }, {  35,3096 }, {  36,3096 },
- {  37,3096 }, {  38,3096 }, {  39,3096 }, {  40,3096 }, {  41,3096 },
- {  42,3096 }, {  43,3096 }, {  44,3096 }, {  45,3096 }, {  46,3096 },
-
- {  47,3096 }, {  48,3096 }, {  49,3096 }, {  50,3096 }, {  51,3096 },
- {  52,3096 }, {  53,3096 }, {  54,3096 }, {  55,3096 }, {  56,3096 },
- {  57,3096 }, {  58,3096 }, {  59,3096 }, {  60,3096 }, {  61,3096 },
- {  62,3096 }, {  63,3096 }, {  64,3096 }, {  65,3096 }, {  66,3096 },
- {  67,3096 }, {  68,3096 }, {  69,3096 }, {  70,3096 }, {  71,3096 },
- {  72,3096 }, {  73,3096 }, {  74,3096 }, {  75,3096 }, {  76,3096 },
- {  77,3096 }, {  78,3096 }, {  79,3096 }, {  80,3096 }, {  81,3096 },
- {  82,3096 }, {  83,3096 }, {  84,3096 }, {  85,3096 }, {  86,3096 },
- {  87,3096 }, {  88,3096 }, {  89,3096 }, {  90,3096 }, {  91,3096 },
- {  92,3355 }, {  93,3096 }, {  94,3096 }, {  95,3096 }, {  96,3096 },
-
- {  97,3096 }, {  98,3096 }, {  99,3096 }, { 100,3096 }, { 101,3096 },
- { 102,3096 }, { 103,3096 }, { 104,3096 }, { 105,3096 }, { 106,3096 },
- { 107,3096 }, { 108,3096 }, { 109,3096 }, { 110,3096 }, { 111,3096 },
- { 112,3096 }, { 113,3096 }, { 114,3096 }, { 115,3096 }, { 116,3096 },
- { 117,3096 }, { 118,3096 }, { 119,3096 }, { 120,3096 }, { 121,3096 },
- { 122,3096 }, { 123,3357 }, { 124,3096 }, { 125,3482 }, { 126,3096 },
- { 127,3096 }, { 128,3096 }, { 129,3096 }, { 130,3096 }, { 131,3096 },
- { 132,3096 }, { 133,3096 }, { 134,3096 }, { 135,3096 }, { 136,3096 },
- { 137,3096 }, { 138,3096 }, { 139,3096 }, { 140,3096 }, { 141,3096 },
- { 142,3096 }, { 143,3096 }, { 144,3096 }, { 145,3096 }, { 146,3096 },
-
- { 147,3096 }, { 148,3096 }, { 149,3096 }, { 150,3096 }, { 151,3096 },
- { 152,3096 }, { 153,3096 }, { 154,3096 }, { 155,3096 }, { 156,3096 },
- { 157,3096 }, { 158,3096 }, { 159,3096 }, { 160,3096 }, { 161,3096 },
- { 162,3096 }, { 163,3096 }, { 164,3096 }, { 165,3096 }, { 166,3096 },
- { 167,3096 }, { 168,3096 }, { 169,3096 }, { 170,3096 }, { 171,3096 },
- { 172,3096 }, { 173,3096 }, { 174,3096 }, { 175,3096 }, { 176,3096 },
- { 177,3096 }, { 178,3096 }, { 179,3096 }, { 180,3096 }, { 181,3096 },
- { 182,3096 }, { 183,3096 }, { 184,3096 }, { 185,3096 }, { 186,3096 },
- { 187,3096 }, { 188,3096 }, { 189,3096 }, { 190,3096 }, { 191,3096 },
- { 192,3096 }, { 193,3096 }, { 194,3096 }, { 195,3096 }, { 196,3096 },
-
- { 197,3096 }, { 198,3096 }, { 199,3096 }, { 200,3096 }, { 201,3096 },
- { 202,3096 }, { 203,3096 }, { 204,3096 }, { 205,3096 }, { 206,3096 },
- { 207,3096 }, { 208,3096 }, { 209,3096 }, { 210,3096 }, { 211,3096 },
- { 212,3096 }, { 213,3096 }, { 214,3096 }, { 215,3096 }, { 216,3096 },
- { 217,3096 }, { 218,3096 }, { 219,3096 }, { 220,3096 }, { 221,3096 },
- { 222,3096 }, { 223,3096 }, { 224,3096 }, { 225,3096 }, { 226,3096 },
- { 227,3096 }, { 228,3096 }, { 229,3096 }, { 230,3096 }, { 231,3096 },
- { 232,3096 }, { 233,3096 }, { 234,3096 }, { 235,3096 }, { 236,3096 },
- { 237,3096 }, { 238,3096 }, { 239,3096 }, { 240,3096 }, { 241,3096 },
- { 242,3096 }, { 243,3096 }, { 244,3096 }, { 245,3096 }, { 246,3096 },
-
- { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
- { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,22410 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
- {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
- {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
- {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
- {  19,2838 }, {  20,2838 }, {  21,2838 }, {  22,2838 }, {  23,2838 },
- {  24,2838 }, {  25,2838 }, {  26,2838 }, {  27,2838 }, {  28,2838 },
- {  29,2838 }, {  30,2838 }, {  31,2838 }, {  32,2838 }, {  33,2838 },
- {  34,2838 }, {  35,2838 }, {  36,2838 }, {  37,2838 }, {  38,2838 },
-
- {  39,2838 }, {  40,2838 }, {  41,2838 }, {  42,2838 }, {  43,2838 },
- {  44,2838 }, {  45,2838 }, {  46,2838 }, {  47,2838 }, {  48,2838 },
- {  49,2838 }, {  50,2838 }, {  51,2838 }, {  52,2838 }, {  53,2838 },
- {  54,2838 }, {  55,2838 }, {  56,2838 }, {  57,2838 }, {  58,2838 },
- {  59,2838 }, {  60,2838 }, {  61,2838 }, {  62,2838 }, {  63,2838 },
- {  64,2838 }, {  65,2838 }, {  66,2838 }, {  67,2838 }, {  68,2838 },
- {  69,2838 }, {  70,2838 }, {  71,2838 }, {  72,2838 }, {  73,2838 },
- {  74,2838 }, {  75,2838 }, {  76,2838 }, {  77,2838 }, {  78,2838 },
- {  79,2838 }, {  80,2838 }, {  81,2838 }, {  82,2838 }, {  83,2838 },
- {  84,2838 }, {  85,2838 }, {  86,2838 }, {  87,2838 }, {  88,2838 },
-
- {  89,2838 }, {  90,2838 }, {  91,2838 }, {  92,3097 }, {  93,2838 },
- {  94,2838 }, {  95,2838 }, {  96,2838 }, {  97,2838 }, {  98,2838 },
- {  99,2838 }, { 100,2838 }, { 101,2838 }, { 102,2838 }, { 103,2838 },
- { 104,2838 }, { 105,2838 }, { 106,2838 }, { 107,2838 }, { 108,2838 },
- { 109,2838 }, { 110,2838 }, { 111,2838 }, { 112,2838 }, { 113,2838 },
- { 114,2838 }, { 115,2838 }, { 116,2838 }, { 117,2838 }, { 118,2838 },
- { 119,2838 }, { 120,2838 }, { 121,2838 }, { 122,2838 }, { 123,3099 },
- { 124,2838 }, { 125,3224 }, { 126,2838 }, { 127,2838 }, { 128,2838 },
- { 129,2838 }, { 130,2838 }, { 131,2838 }, { 132,2838 }, { 133,2838 },
- { 134,2838 }, { 135,2838 }, { 136,2838 }, { 137,2838 }, { 138,2838 },
-
- { 139,2838 }, { 140,2838 }, { 141,2838 }, { 142,2838 }, { 143,2838 },
- { 144,2838 }, { 145,2838 }, { 146,2838 }, { 147,2838 }, { 148,2838 },
- { 149,2838 }, { 150,2838 }, { 151,2838 }, { 152,2838 }, { 153,2838 },
- { 154,2838 }, { 155,2838 }, { 156,2838 }, { 157,2838 }, { 158,2838 },
- { 159,2838 }, { 160,2838 }, { 161,2838 }, { 162,2838 }, { 163,2838 },
- { 164,2838 }, { 165,2838 }, { 166,2838 }, { 167,2838 }, { 168,2838 },
- { 169,2838 }, { 170,2838 }, { 171,2838 }, { 172,2838 }, { 173,2838 },
- { 174,2838 }, { 175,2838 }, { 176,2838 }, { 177,2838 }, { 178,2838 },
- { 179,2838 }, { 180,2838 }, { 181,2838 }, { 182,2838 }, { 183,2838 },
- { 184,2838 }, { 185,2838 }, { 186,2838 }, { 187,2838 }, { 188,2838 },
-
- { 189,2838 }, { 190,2838 }, { 191,2838 }, { 192,2838 }, { 193,2838 },
- { 194,2838 }, { 195,2838 }, { 196,2838 }, { 197,2838 }, { 198,2838 },
- { 199,2838 }, { 200,2838 }, { 201,2838 }, { 202,2838 }, { 203,2838 },
- { 204,2838 }, { 205,2838 }, { 206,2838 }, { 207,2838 }, { 208,2838 },
- { 209,2838 }, { 210,2838 }, { 211,2838 }, { 212,2838 }, { 213,2838 },
- { 214,2838 }, { 215,2838 }, { 216,2838 }, { 217,2838 }, { 218,2838 },
- { 219,2838 }, { 220,2838 }, { 221,2838 }, { 222,2838 }, { 223,2838 },
- { 224,2838 }, { 225,2838 }, { 226,2838 }, { 227,2838 }, { 228,2838 },
- { 229,2838 }, { 230,2838 }, { 231,2838 }, { 232,2838 }, { 233,2838 },
- { 234,2838 }, { 235,2838 }, { 236,2838 }, { 237,2838 }, { 238,2838 },
-
- { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
- { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
- { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,22152 },
- {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
- {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
- {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
- {  16,3223 }, {  17,3223 }, {  18,3223 }, {  19,3223 }, {  20,3223 },
- {  21,3223 }, {  22,3223 }, {  23,3223 }, {  24,3223 }, {  25,3223 },
- {  26,3223 }, {  27,3223 }, {  28,3223 }, {  29,3223 }, {  30,3223 },
-
- {  31,3223 }, {  32,2845 }, {  33,2857 }, {  34,3481 }, {  35,2857 },
- {  36,3223 }, {  37,2857 }, {  38,2857 }, {  39,3739 }, {  40,2860 },
- {  41,2864 }, {  42,2857 }, {  43,2857 }, {  44,2857 }, {  45,3997 },
- {  46,4255 }, {  47,2867 }, {  48,4337 }, {  49,4337 }, {  50,4337 },
- {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 }, {  55,4337 },
- {  56,4337 }, {  57,4337 }, {  58,3223 }, {  59,2857 }, {  60,2857 },
- {  61,2869 }, {  62,2857 }, {  63,3223 }, {  64,2871 }, {  65,3223 },
- {  66,3223 }, {  67,3223 }, {  68,3223 }, {  69,3223 }, {  70,3223 },
- {  71,3223 }, {  72,3223 }, {  73,3223 }, {  74,3223 }, {  75,3223 },
- {  76,3223 }, {  77,3223 }, {  78,3223 }, {  79,3223 }, {  80,3223 },
-
- {  81,3223 }, {  82,3223 }, {  83,3223 }, {  84,3223 }, {  85,3223 },
- {  86,3223 }, {  87,3223 }, {  88,3223 }, {  89,3223 }, {  90,3223 },
- {  91,4595 }, {  92,2857 }, {  93,2857 }, {  94,2857 }, {  95,3223 },
- {  96,2857 }, {  97,4853 }, {  98,3223 }, {  99,3223 }, { 100,3223 },
- { 101,3223 }, { 102,5111 }, { 103,3223 }, { 104,3223 }, { 105,3223 },
- { 106,3223 }, { 107,3223 }, { 108,3223 }, { 109,3223 }, { 110,5369 },
- { 111,3223 }, { 112,3223 }, { 113,3223 }, { 114,3223 }, { 115,3223 },
- { 116,5627 }, { 117,5885 }, { 118,3223 }, { 119,3223 }, { 120,3223 },
- { 121,3223 }, { 122,3223 }, { 123,4273 }, { 124,4275 }, { 125,4304 },
- { 126,4306 }, { 127,3223 }, { 128,3223 }, { 129,3223 }, { 130,3223 },
-
- { 131,3223 }, { 132,3223 }, { 133,3223 }, { 134,3223 }, { 135,3223 },
- { 136,3223 }, { 137,3223 }, { 138,3223 }, { 139,3223 }, { 140,3223 },
- { 141,3223 }, { 142,3223 }, { 143,3223 }, { 144,3223 }, { 145,3223 },
- { 146,3223 }, { 147,3223 }, { 148,3223 }, { 149,3223 }, { 150,3223 },
- { 151,3223 }, { 152,3223 }, { 153,3223 }, { 154,3223 }, { 155,3223 },
- { 156,3223 }, { 157,3223 }, { 158,3223 }, { 159,3223 }, { 160,3223 },
- { 161,3223 }, { 162,3223 }, { 163,3223 }, { 164,3223 }, { 165,3223 },
- { 166,3223 }, { 167,3223 }, { 168,3223 }, { 169,3223 }, { 170,3223 },
- { 171,3223 }, { 172,3223 }, { 173,3223 }, { 174,3223 }, { 175,3223 },
- { 176,3223 }, { 177,3223 }, { 178,3223 }, { 179,3223 }, { 180,3223 },
-
- { 181,3223 }, { 182,3223 }, { 183,3223 }, { 184,3223 }, { 185,3223 },
- { 186,3223 }, { 187,3223 }, { 188,3223 }, { 189,3223 }, { 190,3223 },
- { 191,3223 }, { 192,3223 }, { 193,3223 }, { 194,3223 }, { 195,3223 },
- { 196,3223 }, { 197,3223 }, { 198,3223 }, { 199,3223 }, { 200,3223 },
- { 201,3223 }, { 202,3223 }, { 203,3223 }, { 204,3223 }, { 205,3223 },
- { 206,3223 }, { 207,3223 }, { 208,3223 }, { 209,3223 }, { 210,3223 },
- { 211,3223 }, { 212,3223 }, { 213,3223 }, { 214,3223 }, { 215,3223 },
- { 216,3223 }, { 217,3223 }, { 218,3223 }, { 219,3223 }, { 220,3223 },
- { 221,3223 }, { 222,3223 }, { 223,3223 }, { 224,3223 }, { 225,3223 },
- { 226,3223 }, { 227,3223 }, { 228,3223 }, { 229,3223 }, { 230,3223 },
-
- { 231,3223 }, { 232,3223 }, { 233,3223 }, { 234,3223 }, { 235,3223 },
- { 236,3223 }, { 237,3223 }, { 238,3223 }, { 239,3223 }, { 240,3223 },
- { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
- { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
- { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,21894 }, {   1,2965 }, {   2,2965 },
- {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
- {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
- {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
- {  18,2965 }, {  19,2965 }, {  20,2965 }, {  21,2965 }, {  22,2965 },
-
- {  23,2965 }, {  24,2965 }, {  25,2965 }, {  26,2965 }, {  27,2965 },
- {  28,2965 }, {  29,2965 }, {  30,2965 }, {  31,2965 }, {  32,2587 },
- {  33,2599 }, {  34,3223 }, {  35,2599 }, {  36,2965 }, {  37,2599 },
- {  38,2599 }, {  39,3481 }, {  40,2602 }, {  41,2606 }, {  42,2599 },
- {  43,2599 }, {  44,2599 }, {  45,3739 }, {  46,3997 }, {  47,2609 },
- {  48,4079 }, {  49,4079 }, {  50,4079 }, {  51,4079 }, {  52,4079 },
- {  53,4079 }, {  54,4079 }, {  55,4079 }, {  56,4079 }, {  57,4079 },
- {  58,2965 }, {  59,2599 }, {  60,2599 }, {  61,2611 }, {  62,2599 },
- {  63,2965 }, {  64,2613 }, {  65,2965 }, {  66,2965 }, {  67,2965 },
- {  68,2965 }, {  69,2965 }, {  70,2965 }, {  71,2965 }, {  72,2965 },
-
- {  73,2965 }, {  74,2965 }, {  75,2965 }, {  76,2965 }, {  77,2965 },
- {  78,2965 }, {  79,2965 }, {  80,2965 }, {  81,2965 }, {  82,2965 },
- {  83,2965 }, {  84,2965 }, {  85,2965 }, {  86,2965 }, {  87,2965 },
- {  88,2965 }, {  89,2965 }, {  90,2965 }, {  91,4337 }, {  92,2599 },
- {  93,2599 }, {  94,2599 }, {  95,2965 }, {  96,2599 }, {  97,4595 },
- {  98,2965 }, {  99,2965 }, { 100,2965 }, { 101,2965 }, { 102,4853 },
- { 103,2965 }, { 104,2965 }, { 105,2965 }, { 106,2965 }, { 107,2965 },
- { 108,2965 }, { 109,2965 }, { 110,5111 }, { 111,2965 }, { 112,2965 },
- { 113,2965 }, { 114,2965 }, { 115,2965 }, { 116,5369 }, { 117,5627 },
- { 118,2965 }, { 119,2965 }, { 120,2965 }, { 121,2965 }, { 122,2965 },
-
- { 123,4015 }, { 124,4017 }, { 125,4046 }, { 126,4048 }, { 127,2965 },
- { 128,2965 }, { 129,2965 }, { 130,2965 }, { 131,2965 }, { 132,2965 },
- { 133,2965 }, { 134,2965 }, { 135,2965 }, { 136,2965 }, { 137,2965 },
- { 138,2965 }, { 139,2965 }, { 140,2965 }, { 141,2965 }, { 142,2965 },
- { 143,2965 }, { 144,2965 }, { 145,2965 }, { 146,2965 }, { 147,2965 },
- { 148,2965 }, { 149,2965 }, { 150,2965 }, { 151,2965 }, { 152,2965 },
- { 153,2965 }, { 154,2965 }, { 155,2965 }, { 156,2965 }, { 157,2965 },
- { 158,2965 }, { 159,2965 }, { 160,2965 }, { 161,2965 }, { 162,2965 },
- { 163,2965 }, { 164,2965 }, { 165,2965 }, { 166,2965 }, { 167,2965 },
- { 168,2965 }, { 169,2965 }, { 170,2965 }, { 171,2965 }, { 172,2965 },
-
- { 173,2965 }, { 174,2965 }, { 175,2965 }, { 176,2965 }, { 177,2965 },
- { 178,2965 }, { 179,2965 }, { 180,2965 }, { 181,2965 }, { 182,2965 },
- { 183,2965 }, { 184,2965 }, { 185,2965 }, { 186,2965 }, { 187,2965 },
- { 188,2965 }, { 189,2965 }, { 190,2965 }, { 191,2965 }, { 192,2965 },
- { 193,2965 }, { 194,2965 }, { 195,2965 }, { 196,2965 }, { 197,2965 },
- { 198,2965 }, { 199,2965 }, { 200,2965 }, { 201,2965 }, { 202,2965 },
- { 203,2965 }, { 204,2965 }, { 205,2965 }, { 206,2965 }, { 207,2965 },
- { 208,2965 }, { 209,2965 }, { 210,2965 }, { 211,2965 }, { 212,2965 },
- { 213,2965 }, { 214,2965 }, { 215,2965 }, { 216,2965 }, { 217,2965 },
- { 218,2965 }, { 219,2965 }, { 220,2965 }, { 221,2965 }, { 222,2965 },
-
- { 223,2965 }, { 224,2965 }, { 225,2965 }, { 226,2965 }, { 227,2965 },
- { 228,2965 }, { 229,2965 }, { 230,2965 }, { 231,2965 }, { 232,2965 },
- { 233,2965 }, { 234,2965 }, { 235,2965 }, { 236,2965 }, { 237,2965 },
- { 238,2965 }, { 239,2965 }, { 240,2965 }, { 241,2965 }, { 242,2965 },
- { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
- { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
- { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,21636 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
- {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
- {  10,3794 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
-
- {  15,3792 }, {  16,3792 }, {  17,3792 }, {  18,3792 }, {  19,3792 },
- {  20,3792 }, {  21,3792 }, {  22,3792 }, {  23,3792 }, {  24,3792 },
- {  25,3792 }, {  26,3792 }, {  27,3792 }, {  28,3792 }, {  29,3792 },
- {  30,3792 }, {  31,3792 }, {  32,3792 }, {  33,3792 }, {  34,3792 },
- {  35,3792 }, {  36,3792 }, {  37,3792 }, {  38,3792 }, {  39,3792 },
- {  40,3792 }, {  41,3792 }, {  42,3792 }, {  43,3792 }, {  44,3792 },
- {  45,3792 }, {  46,3792 }, {  47,3792 }, {  48,3792 }, {  49,3792 },
- {  50,3792 }, {  51,3792 }, {  52,3792 }, {  53,3792 }, {  54,3792 },
- {  55,3792 }, {  56,3792 }, {  57,3792 }, {  58,3792 }, {  59,3792 },
- {  60,3792 }, {  61,3792 }, {  62,3792 }, {  63,3792 }, {  64,3792 },
-
- {  65,3792 }, {  66,3792 }, {  67,3792 }, {  68,3792 }, {  69,3792 },
- {  70,3792 }, {  71,3792 }, {  72,3792 }, {  73,3792 }, {  74,3792 },
- {  75,3792 }, {  76,3792 }, {  77,3792 }, {  78,3792 }, {  79,3792 },
- {  80,3792 }, {  81,3792 }, {  82,3792 }, {  83,3792 }, {  84,3792 },
- {  85,3792 }, {  86,3792 }, {  87,3792 }, {  88,3792 }, {  89,3792 },
- {  90,3792 }, {  91,3792 }, {  92,3792 }, {  93,3792 }, {  94,3792 },
- {  95,3792 }, {  96,3792 }, {  97,3792 }, {  98,3792 }, {  99,3792 },
- { 100,3792 }, { 101,3792 }, { 102,3792 }, { 103,3792 }, { 104,3792 },
- { 105,3792 }, { 106,3792 }, { 107,3792 }, { 108,3792 }, { 109,3792 },
- { 110,3792 }, { 111,3792 }, { 112,3792 }, { 113,3792 }, { 114,3792 },
-
- { 115,3792 }, { 116,3792 }, { 117,3792 }, { 118,3792 }, { 119,3792 },
- { 120,3792 }, { 121,3792 }, { 122,3792 }, { 123,3792 }, { 124,3792 },
- { 125,3792 }, { 126,3792 }, { 127,3792 }, { 128,3792 }, { 129,3792 },
- { 130,3792 }, { 131,3792 }, { 132,3792 }, { 133,3792 }, { 134,3792 },
- { 135,3792 }, { 136,3792 }, { 137,3792 }, { 138,3792 }, { 139,3792 },
- { 140,3792 }, { 141,3792 }, { 142,3792 }, { 143,3792 }, { 144,3792 },
- { 145,3792 }, { 146,3792 }, { 147,3792 }, { 148,3792 }, { 149,3792 },
- { 150,3792 }, { 151,3792 }, { 152,3792 }, { 153,3792 }, { 154,3792 },
- { 155,3792 }, { 156,3792 }, { 157,3792 }, { 158,3792 }, { 159,3792 },
- { 160,3792 }, { 161,3792 }, { 162,3792 }, { 163,3792 }, { 164,3792 },
-
- { 165,3792 }, { 166,3792 }, { 167,3792 }, { 168,3792 }, { 169,3792 },
- { 170,3792 }, { 171,3792 }, { 172,3792 }, { 173,3792 }, { 174,3792 },
- { 175,3792 }, { 176,3792 }, { 177,3792 }, { 178,3792 }, { 179,3792 },
- { 180,3792 }, { 181,3792 }, { 182,3792 }, { 183,3792 }, { 184,3792 },
- { 185,3792 }, { 186,3792 }, { 187,3792 }, { 188,3792 }, { 189,3792 },
- { 190,3792 }, { 191,3792 }, { 192,3792 }, { 193,3792 }, { 194,3792 },
- { 195,3792 }, { 196,3792 }, { 197,3792 }, { 198,3792 }, { 199,3792 },
- { 200,3792 }, { 201,3792 }, { 202,3792 }, { 203,3792 }, { 204,3792 },
- { 205,3792 }, { 206,3792 }, { 207,3792 }, { 208,3792 }, { 209,3792 },
- { 210,3792 }, { 211,3792 }, { 212,3792 }, { 213,3792 }, { 214,3792 },
-
- { 215,3792 }, { 216,3792 }, { 217,3792 }, { 218,3792 }, { 219,3792 },
- { 220,3792 }, { 221,3792 }, { 222,3792 }, { 223,3792 }, { 224,3792 },
- { 225,3792 }, { 226,3792 }, { 227,3792 }, { 228,3792 }, { 229,3792 },
- { 230,3792 }, { 231,3792 }, { 232,3792 }, { 233,3792 }, { 234,3792 },
- { 235,3792 }, { 236,3792 }, { 237,3792 }, { 238,3792 }, { 239,3792 },
- { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
- { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
- { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,21378 }, {   1,3534 },
- {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
-
- {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,3536 }, {  11,3534 },
- {  12,3534 }, {  13,3534 }, {  14,3534 }, {  15,3534 }, {  16,3534 },
- {  17,3534 }, {  18,3534 }, {  19,3534 }, {  20,3534 }, {  21,3534 },
- {  22,3534 }, {  23,3534 }, {  24,3534 }, {  25,3534 }, {  26,3534 },
- {  27,3534 }, {  28,3534 }, {  29,3534 }, {  30,3534 }, {  31,3534 },
- {  32,3534 }, {  33,3534 }, {  34,3534 }, {  35,3534 }, {  36,3534 },
- {  37,3534 }, {  38,3534 }, {  39,3534 }, {  40,3534 }, {  41,3534 },
- {  42,3534 }, {  43,3534 }, {  44,3534 }, {  45,3534 }, {  46,3534 },
- {  47,3534 }, {  48,3534 }, {  49,3534 }, {  50,3534 }, {  51,3534 },
- {  52,3534 }, {  53,3534 }, {  54,3534 }, {  55,3534 }, {  56,3534 },
-
- {  57,3534 }, {  58,3534 }, {  59,3534 }, {  60,3534 }, {  61,3534 },
- {  62,3534 }, {  63,3534 }, {  64,3534 }, {  65,3534 }, {  66,3534 },
- {  67,3534 }, {  68,3534 }, {  69,3534 }, {  70,3534 }, {  71,3534 },
- {  72,3534 }, {  73,3534 }, {  74,3534 }, {  75,3534 }, {  76,3534 },
- {  77,3534 }, {  78,3534 }, {  79,3534 }, {  80,3534 }, {  81,3534 },
- {  82,3534 }, {  83,3534 }, {  84,3534 }, {  85,3534 }, {  86,3534 },
- {  87,3534 }, {  88,3534 }, {  89,3534 }, {  90,3534 }, {  91,3534 },
- {  92,3534 }, {  93,3534 }, {  94,3534 }, {  95,3534 }, {  96,3534 },
- {  97,3534 }, {  98,3534 }, {  99,3534 }, { 100,3534 }, { 101,3534 },
- { 102,3534 }, { 103,3534 }, { 104,3534 }, { 105,3534 }, { 106,3534 },
-
- { 107,3534 }, { 108,3534 }, { 109,3534 }, { 110,3534 }, { 111,3534 },
- { 112,3534 }, { 113,3534 }, { 114,3534 }, { 115,3534 }, { 116,3534 },
- { 117,3534 }, { 118,3534 }, { 119,3534 }, { 120,3534 }, { 121,3534 },
- { 122,3534 }, { 123,3534 }, { 124,3534 }, { 125,3534 }, { 126,3534 },
- { 127,3534 }, { 128,3534 }, { 129,3534 }, { 130,3534 }, { 131,3534 },
- { 132,3534 }, { 133,3534 }, { 134,3534 }, { 135,3534 }, { 136,3534 },
- { 137,3534 }, { 138,3534 }, { 139,3534 }, { 140,3534 }, { 141,3534 },
- { 142,3534 }, { 143,3534 }, { 144,3534 }, { 145,3534 }, { 146,3534 },
- { 147,3534 }, { 148,3534 }, { 149,3534 }, { 150,3534 }, { 151,3534 },
- { 152,3534 }, { 153,3534 }, { 154,3534 }, { 155,3534 }, { 156,3534 },
-
- { 157,3534 }, { 158,3534 }, { 159,3534 }, { 160,3534 }, { 161,3534 },
- { 162,3534 }, { 163,3534 }, { 164,3534 }, { 165,3534 }, { 166,3534 },
- { 167,3534 }, { 168,3534 }, { 169,3534 }, { 170,3534 }, { 171,3534 },
- { 172,3534 }, { 173,3534 }, { 174,3534 }, { 175,3534 }, { 176,3534 },
- { 177,3534 }, { 178,3534 }, { 179,3534 }, { 180,3534 }, { 181,3534 },
- { 182,3534 }, { 183,3534 }, { 184,3534 }, { 185,3534 }, { 186,3534 },
- { 187,3534 }, { 188,3534 }, { 189,3534 }, { 190,3534 }, { 191,3534 },
- { 192,3534 }, { 193,3534 }, { 194,3534 }, { 195,3534 }, { 196,3534 },
- { 197,3534 }, { 198,3534 }, { 199,3534 }, { 200,3534 }, { 201,3534 },
- { 202,3534 }, { 203,3534 }, { 204,3534 }, { 205,3534 }, { 206,3534 },
-
- { 207,3534 }, { 208,3534 }, { 209,3534 }, { 210,3534 }, { 211,3534 },
- { 212,3534 }, { 213,3534 }, { 214,3534 }, { 215,3534 }, { 216,3534 },
- { 217,3534 }, { 218,3534 }, { 219,3534 }, { 220,3534 }, { 221,3534 },
- { 222,3534 }, { 223,3534 }, { 224,3534 }, { 225,3534 }, { 226,3534 },
- { 227,3534 }, { 228,3534 }, { 229,3534 }, { 230,3534 }, { 231,3534 },
- { 232,3534 }, { 233,3534 }, { 234,3534 }, { 235,3534 }, { 236,3534 },
- { 237,3534 }, { 238,3534 }, { 239,3534 }, { 240,3534 }, { 241,3534 },
- { 242,3534 }, { 243,3534 }, { 244,3534 }, { 245,3534 }, { 246,3534 },
- { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
- { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
-
- {   0,   0 }, {   0,21120 }, {   1,3280 }, {   2,3280 }, {   3,3280 },
- {   4,3280 }, {   5,3280 }, {   6,3280 }, {   7,3280 }, {   8,3280 },
- {   9,3280 }, {  10,3280 }, {  11,3280 }, {  12,3280 }, {  13,3280 },
- {  14,3280 }, {  15,3280 }, {  16,3280 }, {  17,3280 }, {  18,3280 },
- {  19,3280 }, {  20,3280 }, {  21,3280 }, {  22,3280 }, {  23,3280 },
- {  24,3280 }, {  25,3280 }, {  26,3280 }, {  27,3280 }, {  28,3280 },
- {  29,3280 }, {  30,3280 }, {  31,3280 }, {  32,3280 }, {  33,3280 },
- {  34,3280 }, {  35,3280 }, {  36,3280 }, {  37,3280 }, {  38,3280 },
- {  39,3280 }, {  40,3280 }, {  41,3280 }, {  42,3280 }, {  43,3280 },
- {  44,3280 }, {  45,3280 }, {  46,3280 }, {  47,3280 }, {  48,3280 },
-
- {  49,3280 }, {  50,3280 }, {  51,3280 }, {  52,3280 }, {  53,3280 },
- {  54,3280 }, {  55,3280 }, {  56,3280 }, {  57,3280 }, {  58,3280 },
- {  59,3280 }, {  60,3280 }, {  61,3280 }, {  62,3280 }, {  63,3280 },
- {  64,3280 }, {  65,3280 }, {  66,3280 }, {  67,3280 }, {  68,3280 },
- {  69,3280 }, {  70,3280 }, {  71,3280 }, {  72,3280 }, {  73,3280 },
- {  74,3280 }, {  75,3280 }, {  76,3280 }, {  77,3280 }, {  78,3280 },
- {  79,3280 }, {  80,3280 }, {  81,3280 }, {  82,3280 }, {  83,3280 },
- {  84,3280 }, {  85,3280 }, {  86,3280 }, {  87,3280 }, {  88,3280 },
- {  89,3280 }, {  90,3280 }, {  91,3280 }, {  92,3280 }, {  93,3280 },
- {  94,3280 }, {  95,3280 }, {  96,3280 }, {  97,3280 }, {  98,3280 },
-
- {  99,3280 }, { 100,3280 }, { 101,3280 }, { 102,3280 }, { 103,3280 },
- { 104,3280 }, { 105,3280 }, { 106,3280 }, { 107,3280 }, { 108,3280 },
- { 109,3280 }, { 110,3280 }, { 111,3280 }, { 112,3280 }, { 113,3280 },
- { 114,3280 }, { 115,3280 }, { 116,3280 }, { 117,3280 }, { 118,3280 },
- { 119,3280 }, { 120,3280 }, { 121,3280 }, { 122,3280 }, { 123,5111 },
- { 124,3280 }, { 125,3280 }, { 126,3280 }, { 127,3280 }, { 128,3280 },
- { 129,3280 }, { 130,3280 }, { 131,3280 }, { 132,3280 }, { 133,3280 },
- { 134,3280 }, { 135,3280 }, { 136,3280 }, { 137,3280 }, { 138,3280 },
- { 139,3280 }, { 140,3280 }, { 141,3280 }, { 142,3280 }, { 143,3280 },
- { 144,3280 }, { 145,3280 }, { 146,3280 }, { 147,3280 }, { 148,3280 },
-
- { 149,3280 }, { 150,3280 }, { 151,3280 }, { 152,3280 }, { 153,3280 },
- { 154,3280 }, { 155,3280 }, { 156,3280 }, { 157,3280 }, { 158,3280 },
- { 159,3280 }, { 160,3280 }, { 161,3280 }, { 162,3280 }, { 163,3280 },
- { 164,3280 }, { 165,3280 }, { 166,3280 }, { 167,3280 }, { 168,3280 },
- { 169,3280 }, { 170,3280 }, { 171,3280 }, { 172,3280 }, { 173,3280 },
- { 174,3280 }, { 175,3280 }, { 176,3280 }, { 177,3280 }, { 178,3280 },
- { 179,3280 }, { 180,3280 }, { 181,3280 }, { 182,3280 }, { 183,3280 },
- { 184,3280 }, { 185,3280 }, { 186,3280 }, { 187,3280 }, { 188,3280 },
- { 189,3280 }, { 190,3280 }, { 191,3280 }, { 192,3280 }, { 193,3280 },
- { 194,3280 }, { 195,3280 }, { 196,3280 }, { 197,3280 }, { 198,3280 },
-
- { 199,3280 }, { 200,3280 }, { 201,3280 }, { 202,3280 }, { 203,3280 },
- { 204,3280 }, { 205,3280 }, { 206,3280 }, { 207,3280 }, { 208,3280 },
- { 209,3280 }, { 210,3280 }, { 211,3280 }, { 212,3280 }, { 213,3280 },
- { 214,3280 }, { 215,3280 }, { 216,3280 }, { 217,3280 }, { 218,3280 },
- { 219,3280 }, { 220,3280 }, { 221,3280 }, { 222,3280 }, { 223,3280 },
- { 224,3280 }, { 225,3280 }, { 226,3280 }, { 227,3280 }, { 228,3280 },
- { 229,3280 }, { 230,3280 }, { 231,3280 }, { 232,3280 }, { 233,3280 },
- { 234,3280 }, { 235,3280 }, { 236,3280 }, { 237,3280 }, { 238,3280 },
- { 239,3280 }, { 240,3280 }, { 241,3280 }, { 242,3280 }, { 243,3280 },
- { 244,3280 }, { 245,3280 }, { 246,3280 }, { 247,3280 }, { 248,3280 },
-
- { 249,3280 }, { 250,3280 }, { 251,3280 }, { 252,3280 }, { 253,3280 },
- { 254,3280 }, { 255,3280 }, { 256,3280 }, {   0,   0 }, {   0,20862 },
- {   1,3022 }, {   2,3022 }, {   3,3022 }, {   4,3022 }, {   5,3022 },
- {   6,3022 }, {   7,3022 }, {   8,3022 }, {   9,3022 }, {  10,3022 },
- {  11,3022 }, {  12,3022 }, {  13,3022 }, {  14,3022 }, {  15,3022 },
- {  16,3022 }, {  17,3022 }, {  18,3022 }, {  19,3022 }, {  20,3022 },
- {  21,3022 }, {  22,3022 }, {  23,3022 }, {  24,3022 }, {  25,3022 },
- {  26,3022 }, {  27,3022 }, {  28,3022 }, {  29,3022 }, {  30,3022 },
- {  31,3022 }, {  32,3022 }, {  33,3022 }, {  34,3022 }, {  35,3022 },
- {  36,3022 }, {  37,3022 }, {  38,3022 }, {  39,3022 }, {  40,3022 },
-
- {  41,3022 }, {  42,3022 }, {  43,3022 }, {  44,3022 }, {  45,3022 },
- {  46,3022 }, {  47,3022 }, {  48,3022 }, {  49,3022 }, {  50,3022 },
- {  51,3022 }, {  52,3022 }, {  53,3022 }, {  54,3022 }, {  55,3022 },
- {  56,3022 }, {  57,3022 }, {  58,3022 }, {  59,3022 }, {  60,3022 },
- {  61,3022 }, {  62,3022 }, {  63,3022 }, {  64,3022 }, {  65,3022 },
- {  66,3022 }, {  67,3022 }, {  68,3022 }, {  69,3022 }, {  70,3022 },
- {  71,3022 }, {  72,3022 }, {  73,3022 }, {  74,3022 }, {  75,3022 },
- {  76,3022 }, {  77,3022 }, {  78,3022 }, {  79,3022 }, {  80,3022 },
- {  81,3022 }, {  82,3022 }, {  83,3022 }, {  84,3022 }, {  85,3022 },
- {  86,3022 }, {  87,3022 }, {  88,3022 }, {  89,3022 }, {  90,3022 },
-
- {  91,3022 }, {  92,3022 }, {  93,3022 }, {  94,3022 }, {  95,3022 },
- {  96,3022 }, {  97,3022 }, {  98,3022 }, {  99,3022 }, { 100,3022 },
- { 101,3022 }, { 102,3022 }, { 103,3022 }, { 104,3022 }, { 105,3022 },
- { 106,3022 }, { 107,3022 }, { 108,3022 }, { 109,3022 }, { 110,3022 },
- { 111,3022 }, { 112,3022 }, { 113,3022 }, { 114,3022 }, { 115,3022 },
- { 116,3022 }, { 117,3022 }, { 118,3022 }, { 119,3022 }, { 120,3022 },
- { 121,3022 }, { 122,3022 }, { 123,4853 }, { 124,3022 }, { 125,3022 },
- { 126,3022 }, { 127,3022 }, { 128,3022 }, { 129,3022 }, { 130,3022 },
- { 131,3022 }, { 132,3022 }, { 133,3022 }, { 134,3022 }, { 135,3022 },
- { 136,3022 }, { 137,3022 }, { 138,3022 }, { 139,3022 }, { 140,3022 },
-
- { 141,3022 }, { 142,3022 }, { 143,3022 }, { 144,3022 }, { 145,3022 },
- { 146,3022 }, { 147,3022 }, { 148,3022 }, { 149,3022 }, { 150,3022 },
- { 151,3022 }, { 152,3022 }, { 153,3022 }, { 154,3022 }, { 155,3022 },
- { 156,3022 }, { 157,3022 }, { 158,3022 }, { 159,3022 }, { 160,3022 },
- { 161,3022 }, { 162,3022 }, { 163,3022 }, { 164,3022 }, { 165,3022 },
- { 166,3022 }, { 167,3022 }, { 168,3022 }, { 169,3022 }, { 170,3022 },
- { 171,3022 }, { 172,3022 }, { 173,3022 }, { 174,3022 }, { 175,3022 },
- { 176,3022 }, { 177,3022 }, { 178,3022 }, { 179,3022 }, { 180,3022 },
- { 181,3022 }, { 182,3022 }, { 183,3022 }, { 184,3022 }, { 185,3022 },
- { 186,3022 }, { 187,3022 }, { 188,3022 }, { 189,3022 }, { 190,3022 },
-
- { 191,3022 }, { 192,3022 }, { 193,3022 }, { 194,3022 }, { 195,3022 },
- { 196,3022 }, { 197,3022 }, { 198,3022 }, { 199,3022 }, { 200,3022 },
- { 201,3022 }, { 202,3022 }, { 203,3022 }, { 204,3022 }, { 205,3022 },
- { 206,3022 }, { 207,3022 }, { 208,3022 }, { 209,3022 }, { 210,3022 },
- { 211,3022 }, { 212,3022 }, { 213,3022 }, { 214,3022 }, { 215,3022 },
- { 216,3022 }, { 217,3022 }, { 218,3022 }, { 219,3022 }, { 220,3022 },
- { 221,3022 }, { 222,3022 }, { 223,3022 }, { 224,3022 }, { 225,3022 },
- { 226,3022 }, { 227,3022 }, { 228,3022 }, { 229,3022 }, { 230,3022 },
- { 231,3022 }, { 232,3022 }, { 233,3022 }, { 234,3022 }, { 235,3022 },
- { 236,3022 }, { 237,3022 }, { 238,3022 }, { 239,3022 }, { 240,3022 },
-
- { 241,3022 }, { 242,3022 }, { 243,3022 }, { 244,3022 }, { 245,3022 },
- { 246,3022 }, { 247,3022 }, { 248,3022 }, { 249,3022 }, { 250,3022 },
- { 251,3022 }, { 252,3022 }, { 253,3022 }, { 254,3022 }, { 255,3022 },
- { 256,3022 }, {   0,   0 }, {   0,20604 }, {   1,4720 }, {   2,4720 },
- {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
- {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
- {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
- {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 }, {  22,4720 },
- {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 }, {  27,4720 },
- {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 }, {  32,4720 },
-
- {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 }, {  37,4720 },
- {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 }, {  42,4720 },
- {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 }, {  47,4720 },
- {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 }, {  52,4720 },
- {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 }, {  57,4720 },
- {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 }, {  62,4720 },
- {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 }, {  67,4720 },
- {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 }, {  72,4720 },
- {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 }, {  77,4720 },
- {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 }, {  82,4720 },
-
- {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 }, {  87,4720 },
- {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 }, {  92,4720 },
- {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 }, {  97,4720 },
- {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 }, { 102,4720 },
- { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 }, { 107,4720 },
- { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 }, { 112,4720 },
- { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 }, { 117,4720 },
- { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 }, { 122,4720 },
- { 123,4720 }, { 124,4720 }, { 125,4978 }, { 126,4720 }, { 127,4720 },
- { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 }, { 132,4720 },
-
- { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 }, { 137,4720 },
- { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 }, { 142,4720 },
- { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 }, { 147,4720 },
- { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 }, { 152,4720 },
- { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 }, { 157,4720 },
- { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 }, { 162,4720 },
- { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 }, { 167,4720 },
- { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 }, { 172,4720 },
- { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 }, { 177,4720 },
- { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 }, { 182,4720 },
-
- { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 }, { 187,4720 },
- { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 }, { 192,4720 },
- { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 }, { 197,4720 },
- { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 }, { 202,4720 },
- { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 }, { 207,4720 },
- { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 }, { 212,4720 },
- { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 }, { 217,4720 },
- { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 }, { 222,4720 },
- { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 }, { 227,4720 },
- { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 }, { 232,4720 },
-
- { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 }, { 237,4720 },
- { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 }, { 242,4720 },
- { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 }, { 247,4720 },
- { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 }, { 252,4720 },
- { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4720 }, {   0,   0 },
- {   0,20346 }, {   1,4462 }, {   2,4462 }, {   3,4462 }, {   4,4462 },
- {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 }, {   9,4462 },
- {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 }, {  14,4462 },
- {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 }, {  19,4462 },
- {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 }, {  24,4462 },
-
- {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 }, {  29,4462 },
- {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 }, {  34,4462 },
- {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 }, {  39,4462 },
- {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 }, {  44,4462 },
- {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 }, {  49,4462 },
- {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 }, {  54,4462 },
- {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 }, {  59,4462 },
- {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 }, {  64,4462 },
- {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 }, {  69,4462 },
- {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 }, {  74,4462 },
-
- {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 }, {  79,4462 },
- {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 }, {  84,4462 },
- {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 }, {  89,4462 },
- {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 }, {  94,4462 },
- {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 }, {  99,4462 },
- { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 }, { 104,4462 },
- { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 }, { 109,4462 },
- { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 }, { 114,4462 },
- { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 }, { 119,4462 },
- { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4462 }, { 124,4462 },
-
- { 125,4720 }, { 126,4462 }, { 127,4462 }, { 128,4462 }, { 129,4462 },
- { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 }, { 134,4462 },
- { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 }, { 139,4462 },
- { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 }, { 144,4462 },
- { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 }, { 149,4462 },
- { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 }, { 154,4462 },
- { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 }, { 159,4462 },
- { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 }, { 164,4462 },
- { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 }, { 169,4462 },
- { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 }, { 174,4462 },
-
- { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 }, { 179,4462 },
- { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 }, { 184,4462 },
- { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 }, { 189,4462 },
- { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 }, { 194,4462 },
- { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 }, { 199,4462 },
- { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 }, { 204,4462 },
- { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 }, { 209,4462 },
- { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 }, { 214,4462 },
- { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 }, { 219,4462 },
- { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 }, { 224,4462 },
-
- { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 }, { 229,4462 },
- { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 }, { 234,4462 },
- { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 }, { 239,4462 },
- { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 }, { 244,4462 },
- { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 }, { 249,4462 },
- { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 }, { 254,4462 },
- { 255,4462 }, { 256,4462 }, {   0,   0 }, {   0,20088 }, {   1,4720 },
- {   2,4720 }, {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 },
- {   7,4720 }, {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 },
- {  12,4720 }, {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 },
-
- {  17,4720 }, {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 },
- {  22,4720 }, {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 },
- {  27,4720 }, {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 },
- {  32,4720 }, {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 },
- {  37,4720 }, {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 },
- {  42,4720 }, {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 },
- {  47,4720 }, {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 },
- {  52,4720 }, {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 },
- {  57,4720 }, {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 },
- {  62,4720 }, {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 },
-
- {  67,4720 }, {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 },
- {  72,4720 }, {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 },
- {  77,4720 }, {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 },
- {  82,4720 }, {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 },
- {  87,4720 }, {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 },
- {  92,4720 }, {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 },
- {  97,4720 }, {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 },
- { 102,4720 }, { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 },
- { 107,4720 }, { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 },
- { 112,4720 }, { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 },
-
- { 117,4720 }, { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 },
- { 122,4720 }, { 123,4977 }, { 124,4720 }, { 125,4720 }, { 126,4720 },
- { 127,4720 }, { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 },
- { 132,4720 }, { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 },
- { 137,4720 }, { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 },
- { 142,4720 }, { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 },
- { 147,4720 }, { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 },
- { 152,4720 }, { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 },
- { 157,4720 }, { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 },
- { 162,4720 }, { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 },
-
- { 167,4720 }, { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 },
- { 172,4720 }, { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 },
- { 177,4720 }, { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 },
- { 182,4720 }, { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 },
- { 187,4720 }, { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 },
- { 192,4720 }, { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 },
- { 197,4720 }, { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 },
- { 202,4720 }, { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 },
- { 207,4720 }, { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 },
- { 212,4720 }, { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 },
-
- { 217,4720 }, { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 },
- { 222,4720 }, { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 },
- { 227,4720 }, { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 },
- { 232,4720 }, { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 },
- { 237,4720 }, { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 },
- { 242,4720 }, { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 },
- { 247,4720 }, { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 },
- { 252,4720 }, { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4979 },
- {   0,   0 }, {   0,19830 }, {   1,4462 }, {   2,4462 }, {   3,4462 },
- {   4,4462 }, {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 },
-
- {   9,4462 }, {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 },
- {  14,4462 }, {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 },
- {  19,4462 }, {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 },
- {  24,4462 }, {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 },
- {  29,4462 }, {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 },
- {  34,4462 }, {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 },
- {  39,4462 }, {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 },
- {  44,4462 }, {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 },
- {  49,4462 }, {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 },
- {  54,4462 }, {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 },
-
- {  59,4462 }, {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 },
- {  64,4462 }, {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 },
- {  69,4462 }, {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 },
- {  74,4462 }, {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 },
- {  79,4462 }, {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 },
- {  84,4462 }, {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 },
- {  89,4462 }, {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 },
- {  94,4462 }, {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 },
- {  99,4462 }, { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 },
- { 104,4462 }, { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 },
-
- { 109,4462 }, { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 },
- { 114,4462 }, { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 },
- { 119,4462 }, { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4719 },
- { 124,4462 }, { 125,4462 }, { 126,4462 }, { 127,4462 }, { 128,4462 },
- { 129,4462 }, { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 },
- { 134,4462 }, { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 },
- { 139,4462 }, { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 },
- { 144,4462 }, { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 },
- { 149,4462 }, { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 },
- { 154,4462 }, { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 },
-
- { 159,4462 }, { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 },
- { 164,4462 }, { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 },
- { 169,4462 }, { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 },
- { 174,4462 }, { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 },
- { 179,4462 }, { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 },
- { 184,4462 }, { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 },
- { 189,4462 }, { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 },
- { 194,4462 }, { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 },
- { 199,4462 }, { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 },
- { 204,4462 }, { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 },
-
- { 209,4462 }, { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 },
- { 214,4462 }, { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 },
- { 219,4462 }, { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 },
- { 224,4462 }, { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 },
- { 229,4462 }, { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 },
- { 234,4462 }, { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 },
- { 239,4462 }, { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 },
- { 244,4462 }, { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 },
- { 249,4462 }, { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 },
- { 254,4462 }, { 255,4462 }, { 256,4721 }, {   0,   2 }, {   0,19572 },
-
- {   1,4586 }, {   2,4586 }, {   3,4586 }, {   4,4586 }, {   5,4586 },
- {   6,4586 }, {   7,4586 }, {   8,4586 }, {   9,4586 }, {  10,4465 },
- {  11,4586 }, {  12,4586 }, {  13,4465 }, {  14,4586 }, {  15,4586 },
- {  16,4586 }, {  17,4586 }, {  18,4586 }, {  19,4586 }, {  20,4586 },
- {  21,4586 }, {  22,4586 }, {  23,4586 }, {  24,4586 }, {  25,4586 },
- {  26,4586 }, {  27,4586 }, {  28,4586 }, {  29,4586 }, {  30,4586 },
- {  31,4586 }, {  32,4586 }, {  33,4586 }, {  34,4586 }, {  35,4586 },
- {  36,4586 }, {  37,4586 }, {  38,4586 }, {  39,4586 }, {  40,4586 },
- {  41,4586 }, {  42,4586 }, {  43,4586 }, {  44,4586 }, {  45,4586 },
- {  46,4586 }, {  47,4586 }, {  48,4586 }, {  49,4586 }, {  50,4586 },
-
- {  51,4586 }, {  52,4586 }, {  53,4586 }, {  54,4586 }, {  55,4586 },
- {  56,4586 }, {  57,4586 }, {  58,4586 }, {  59,4586 }, {  60,4586 },
- {  61,4586 }, {  62,4586 }, {  63,4586 }, {  64,4586 }, {  65,4586 },
- {  66,4586 }, {  67,4586 }, {  68,4586 }, {  69,4586 }, {  70,4586 },
- {  71,4586 }, {  72,4586 }, {  73,4586 }, {  74,4586 }, {  75,4586 },
- {  76,4586 }, {  77,4586 }, {  78,4586 }, {  79,4586 }, {  80,4586 },
- {  81,4586 }, {  82,4586 }, {  83,4586 }, {  84,4586 }, {  85,4586 },
- {  86,4586 }, {  87,4586 }, {  88,4586 }, {  89,4586 }, {  90,4586 },
- {  91,4586 }, {  92,4467 }, {  93,4586 }, {  94,4586 }, {  95,4586 },
- {  96,4586 }, {  97,4586 }, {  98,4586 }, {  99,4586 }, { 100,4586 },
-
- { 101,4586 }, { 102,4586 }, { 103,4586 }, { 104,4586 }, { 105,4586 },
- { 106,4586 }, { 107,4586 }, { 108,4586 }, { 109,4586 }, { 110,4586 },
- { 111,4586 }, { 112,4586 }, { 113,4586 }, { 114,4586 }, { 115,4586 },
- { 116,4586 }, { 117,4586 }, { 118,4586 }, { 119,4586 }, { 120,4586 },
- { 121,4586 }, { 122,4586 }, {   0,   0 }, { 124,4586 }, { 125,4586 },
- { 126,4586 }, { 127,4586 }, { 128,4586 }, { 129,4586 }, { 130,4586 },
- { 131,4586 }, { 132,4586 }, { 133,4586 }, { 134,4586 }, { 135,4586 },
- { 136,4586 }, { 137,4586 }, { 138,4586 }, { 139,4586 }, { 140,4586 },
- { 141,4586 }, { 142,4586 }, { 143,4586 }, { 144,4586 }, { 145,4586 },
- { 146,4586 }, { 147,4586 }, { 148,4586 }, { 149,4586 }, { 150,4586 },
-
- { 151,4586 }, { 152,4586 }, { 153,4586 }, { 154,4586 }, { 155,4586 },
- { 156,4586 }, { 157,4586 }, { 158,4586 }, { 159,4586 }, { 160,4586 },
- { 161,4586 }, { 162,4586 }, { 163,4586 }, { 164,4586 }, { 165,4586 },
- { 166,4586 }, { 167,4586 }, { 168,4586 }, { 169,4586 }, { 170,4586 },
- { 171,4586 }, { 172,4586 }, { 173,4586 }, { 174,4586 }, { 175,4586 },
- { 176,4586 }, { 177,4586 }, { 178,4586 }, { 179,4586 }, { 180,4586 },
- { 181,4586 }, { 182,4586 }, { 183,4586 }, { 184,4586 }, { 185,4586 },
- { 186,4586 }, { 187,4586 }, { 188,4586 }, { 189,4586 }, { 190,4586 },
- { 191,4586 }, { 192,4586 }, { 193,4586 }, { 194,4586 }, { 195,4586 },
- { 196,4586 }, { 197,4586 }, { 198,4586 }, { 199,4586 }, { 200,4586 },
-
- { 201,4586 }, { 202,4586 }, { 203,4586 }, { 204,4586 }, { 205,4586 },
- { 206,4586 }, { 207,4586 }, { 208,4586 }, { 209,4586 }, { 210,4586 },
- { 211,4586 }, { 212,4586 }, { 213,4586 }, { 214,4586 }, { 215,4586 },
- { 216,4586 }, { 217,4586 }, { 218,4586 }, { 219,4586 }, { 220,4586 },
- { 221,4586 }, { 222,4586 }, { 223,4586 }, { 224,4586 }, { 225,4586 },
- { 226,4586 }, { 227,4586 }, { 228,4586 }, { 229,4586 }, { 230,4586 },
- { 231,4586 }, { 232,4586 }, { 233,4586 }, { 234,4586 }, { 235,4586 },
- { 236,4586 }, { 237,4586 }, { 238,4586 }, { 239,4586 }, { 240,4586 },
- { 241,4586 }, { 242,4586 }, { 243,4586 }, { 244,4586 }, { 245,4586 },
- { 246,4586 }, { 247,4586 }, { 248,4586 }, { 249,4586 }, { 250,4586 },
-
- { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
- {   0,   2 }, {   0,19315 }, {   0,   6 }, {   0,19313 }, {   0,   6 },
- {   0,19311 }, {   0,   6 }, {   0,19309 }, {   0,  36 }, {   0,19307 },
- {   0,   0 }, {  10,4208 }, {   0,   0 }, {   0,   0 }, {  13,4208 },
- {   0,  36 }, {   0,19300 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
- {   0,  51 }, {   0,19295 }, {  13,4867 }, {   0,  15 }, {   0,19292 },
- {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,19288 }, {  13,4860 },
- {   0,  35 }, {   0,19285 }, {   0,  32 }, {   0,19283 }, {   0,  41 },
- {   0,19281 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4860 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4210 }, {   0,   0 },
-
- {  92,4584 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4586 }, {   0,   0 }, { 123,4586 }, {   0,   2 },
- {   0,19186 }, {   1,4200 }, {   2,4200 }, {   3,4200 }, {   4,4200 },
- {   5,4200 }, {   6,4200 }, {   7,4200 }, {   8,4200 }, {   9,4200 },
- {  10,4079 }, {  11,4200 }, {  12,4200 }, {  13,4079 }, {  14,4200 },
-
- {  15,4200 }, {  16,4200 }, {  17,4200 }, {  18,4200 }, {  19,4200 },
- {  20,4200 }, {  21,4200 }, {  22,4200 }, {  23,4200 }, {  24,4200 },
- {  25,4200 }, {  26,4200 }, {  27,4200 }, {  28,4200 }, {  29,4200 },
- {  30,4200 }, {  31,4200 }, {  32,4200 }, {  33,4200 }, {  34,4200 },
- {  35,4200 }, {  36,4200 }, {  37,4200 }, {  38,4200 }, {  39,4200 },
- {  40,4200 }, {  41,4200 }, {  42,4200 }, {  43,4200 }, {  44,4200 },
- {  45,4200 }, {  46,4200 }, {  47,4200 }, {  48,4200 }, {  49,4200 },
- {  50,4200 }, {  51,4200 }, {  52,4200 }, {  53,4200 }, {  54,4200 },
- {  55,4200 }, {  56,4200 }, {  57,4200 }, {  58,4200 }, {  59,4200 },
- {  60,4200 }, {  61,4200 }, {  62,4200 }, {  63,4200 }, {  64,4200 },
-
- {  65,4200 }, {  66,4200 }, {  67,4200 }, {  68,4200 }, {  69,4200 },
- {  70,4200 }, {  71,4200 }, {  72,4200 }, {  73,4200 }, {  74,4200 },
- {  75,4200 }, {  76,4200 }, {  77,4200 }, {  78,4200 }, {  79,4200 },
- {  80,4200 }, {  81,4200 }, {  82,4200 }, {  83,4200 }, {  84,4200 },
- {  85,4200 }, {  86,4200 }, {  87,4200 }, {  88,4200 }, {  89,4200 },
- {  90,4200 }, {  91,4200 }, {  92,4081 }, {  93,4200 }, {  94,4200 },
- {  95,4200 }, {  96,4200 }, {  97,4200 }, {  98,4200 }, {  99,4200 },
- { 100,4200 }, { 101,4200 }, { 102,4200 }, { 103,4200 }, { 104,4200 },
- { 105,4200 }, { 106,4200 }, { 107,4200 }, { 108,4200 }, { 109,4200 },
- { 110,4200 }, { 111,4200 }, { 112,4200 }, { 113,4200 }, { 114,4200 },
-
- { 115,4200 }, { 116,4200 }, { 117,4200 }, { 118,4200 }, { 119,4200 },
- { 120,4200 }, { 121,4200 }, { 122,4200 }, {   0,   0 }, { 124,4200 },
- { 125,4200 }, { 126,4200 }, { 127,4200 }, { 128,4200 }, { 129,4200 },
- { 130,4200 }, { 131,4200 }, { 132,4200 }, { 133,4200 }, { 134,4200 },
- { 135,4200 }, { 136,4200 }, { 137,4200 }, { 138,4200 }, { 139,4200 },
- { 140,4200 }, { 141,4200 }, { 142,4200 }, { 143,4200 }, { 144,4200 },
- { 145,4200 }, { 146,4200 }, { 147,4200 }, { 148,4200 }, { 149,4200 },
- { 150,4200 }, { 151,4200 }, { 152,4200 }, { 153,4200 }, { 154,4200 },
- { 155,4200 }, { 156,4200 }, { 157,4200 }, { 158,4200 }, { 159,4200 },
- { 160,4200 }, { 161,4200 }, { 162,4200 }, { 163,4200 }, { 164,4200 },
-
- { 165,4200 }, { 166,4200 }, { 167,4200 }, { 168,4200 }, { 169,4200 },
- { 170,4200 }, { 171,4200 }, { 172,4200 }, { 173,4200 }, { 174,4200 },
- { 175,4200 }, { 176,4200 }, { 177,4200 }, { 178,4200 }, { 179,4200 },
- { 180,4200 }, { 181,4200 }, { 182,4200 }, { 183,4200 }, { 184,4200 },
- { 185,4200 }, { 186,4200 }, { 187,4200 }, { 188,4200 }, { 189,4200 },
- { 190,4200 }, { 191,4200 }, { 192,4200 }, { 193,4200 }, { 194,4200 },
- { 195,4200 }, { 196,4200 }, { 197,4200 }, { 198,4200 }, { 199,4200 },
- { 200,4200 }, { 201,4200 }, { 202,4200 }, { 203,4200 }, { 204,4200 },
- { 205,4200 }, { 206,4200 }, { 207,4200 }, { 208,4200 }, { 209,4200 },
- { 210,4200 }, { 211,4200 }, { 212,4200 }, { 213,4200 }, { 214,4200 },
-
- { 215,4200 }, { 216,4200 }, { 217,4200 }, { 218,4200 }, { 219,4200 },
- { 220,4200 }, { 221,4200 }, { 222,4200 }, { 223,4200 }, { 224,4200 },
- { 225,4200 }, { 226,4200 }, { 227,4200 }, { 228,4200 }, { 229,4200 },
- { 230,4200 }, { 231,4200 }, { 232,4200 }, { 233,4200 }, { 234,4200 },
- { 235,4200 }, { 236,4200 }, { 237,4200 }, { 238,4200 }, { 239,4200 },
- { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
- { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
- { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
- { 255,4200 }, {   0,  51 }, {   0,18929 }, {   1,4231 }, {   2,4231 },
- {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
-
- {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
- {  13,4206 }, {  14,4231 }, {  15,4231 }, {  16,4231 }, {  17,4231 },
- {  18,4231 }, {  19,4231 }, {  20,4231 }, {  21,4231 }, {  22,4231 },
- {  23,4231 }, {  24,4231 }, {  25,4231 }, {  26,4231 }, {  27,4231 },
- {  28,4231 }, {  29,4231 }, {  30,4231 }, {  31,4231 }, {  32,4206 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4231 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4206 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4231 }, {  46,4206 }, {  47,4206 },
- {  48,4231 }, {  49,4231 }, {  50,4231 }, {  51,4231 }, {  52,4231 },
- {  53,4231 }, {  54,4231 }, {  55,4231 }, {  56,4231 }, {  57,4231 },
-
- {  58,4231 }, {   0,   0 }, {   0,   0 }, {  61,4206 }, {   0,   0 },
- {  63,4231 }, {   0,   0 }, {  65,4231 }, {  66,4231 }, {  67,4231 },
- {  68,4231 }, {  69,4231 }, {  70,4231 }, {  71,4231 }, {  72,4231 },
- {  73,4231 }, {  74,4231 }, {  75,4231 }, {  76,4231 }, {  77,4231 },
- {  78,4231 }, {  79,4231 }, {  80,4231 }, {  81,4231 }, {  82,4231 },
- {  83,4231 }, {  84,4231 }, {  85,4231 }, {  86,4231 }, {  87,4231 },
- {  88,4231 }, {  89,4231 }, {  90,4231 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4231 }, {   0,   0 }, {  97,4231 },
- {  98,4231 }, {  99,4231 }, { 100,4231 }, { 101,4231 }, { 102,4231 },
- { 103,4231 }, { 104,4231 }, { 105,4231 }, { 106,4231 }, { 107,4231 },
-
- { 108,4231 }, { 109,4231 }, { 110,4231 }, { 111,4231 }, { 112,4231 },
- { 113,4231 }, { 114,4231 }, { 115,4231 }, { 116,4231 }, { 117,4231 },
- { 118,4231 }, { 119,4231 }, { 120,4231 }, { 121,4231 }, { 122,4231 },
- {   0,   0 }, { 124,4206 }, { 125,4206 }, { 126,4206 }, { 127,4231 },
- { 128,4231 }, { 129,4231 }, { 130,4231 }, { 131,4231 }, { 132,4231 },
- { 133,4231 }, { 134,4231 }, { 135,4231 }, { 136,4231 }, { 137,4231 },
- { 138,4231 }, { 139,4231 }, { 140,4231 }, { 141,4231 }, { 142,4231 },
- { 143,4231 }, { 144,4231 }, { 145,4231 }, { 146,4231 }, { 147,4231 },
- { 148,4231 }, { 149,4231 }, { 150,4231 }, { 151,4231 }, { 152,4231 },
- { 153,4231 }, { 154,4231 }, { 155,4231 }, { 156,4231 }, { 157,4231 },
-
- { 158,4231 }, { 159,4231 }, { 160,4231 }, { 161,4231 }, { 162,4231 },
- { 163,4231 }, { 164,4231 }, { 165,4231 }, { 166,4231 }, { 167,4231 },
- { 168,4231 }, { 169,4231 }, { 170,4231 }, { 171,4231 }, { 172,4231 },
- { 173,4231 }, { 174,4231 }, { 175,4231 }, { 176,4231 }, { 177,4231 },
- { 178,4231 }, { 179,4231 }, { 180,4231 }, { 181,4231 }, { 182,4231 },
- { 183,4231 }, { 184,4231 }, { 185,4231 }, { 186,4231 }, { 187,4231 },
- { 188,4231 }, { 189,4231 }, { 190,4231 }, { 191,4231 }, { 192,4231 },
- { 193,4231 }, { 194,4231 }, { 195,4231 }, { 196,4231 }, { 197,4231 },
- { 198,4231 }, { 199,4231 }, { 200,4231 }, { 201,4231 }, { 202,4231 },
- { 203,4231 }, { 204,4231 }, { 205,4231 }, { 206,4231 }, { 207,4231 },
-
- { 208,4231 }, { 209,4231 }, { 210,4231 }, { 211,4231 }, { 212,4231 },
- { 213,4231 }, { 214,4231 }, { 215,4231 }, { 216,4231 }, { 217,4231 },
- { 218,4231 }, { 219,4231 }, { 220,4231 }, { 221,4231 }, { 222,4231 },
- { 223,4231 }, { 224,4231 }, { 225,4231 }, { 226,4231 }, { 227,4231 },
- { 228,4231 }, { 229,4231 }, { 230,4231 }, { 231,4231 }, { 232,4231 },
- { 233,4231 }, { 234,4231 }, { 235,4231 }, { 236,4231 }, { 237,4231 },
- { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
- { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
- { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
- { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
-
- {   0,18671 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
- {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
- {  10,4265 }, {  11,4265 }, {  12,4265 }, {  13,4265 }, {  14,4265 },
- {  15,4265 }, {  16,4265 }, {  17,4265 }, {  18,4265 }, {  19,4265 },
- {  20,4265 }, {  21,4265 }, {  22,4265 }, {  23,4265 }, {  24,4265 },
- {  25,4265 }, {  26,4265 }, {  27,4265 }, {  28,4265 }, {  29,4265 },
- {  30,4265 }, {  31,4265 }, {  32,4265 }, {  33,4265 }, {  34,4233 },
- {  35,4265 }, {  36,4265 }, {  37,4265 }, {  38,4265 }, {  39,4265 },
- {  40,4265 }, {  41,4265 }, {  42,4265 }, {  43,4265 }, {  44,4265 },
- {  45,4265 }, {  46,4265 }, {  47,4265 }, {  48,4265 }, {  49,4265 },
-
- {  50,4265 }, {  51,4265 }, {  52,4265 }, {  53,4265 }, {  54,4265 },
- {  55,4265 }, {  56,4265 }, {  57,4265 }, {  58,4265 }, {  59,4265 },
- {  60,4265 }, {  61,4265 }, {  62,4265 }, {  63,4265 }, {  64,4265 },
- {  65,4265 }, {  66,4265 }, {  67,4265 }, {  68,4265 }, {  69,4265 },
- {  70,4265 }, {  71,4265 }, {  72,4265 }, {  73,4265 }, {  74,4265 },
- {  75,4265 }, {  76,4265 }, {  77,4265 }, {  78,4265 }, {  79,4265 },
- {  80,4265 }, {  81,4265 }, {  82,4265 }, {  83,4265 }, {  84,4265 },
- {  85,4265 }, {  86,4265 }, {  87,4265 }, {  88,4265 }, {  89,4265 },
- {  90,4265 }, {  91,4265 }, {  92,4523 }, {  93,4265 }, {  94,4265 },
- {  95,4265 }, {  96,4265 }, {  97,4265 }, {  98,4265 }, {  99,4265 },
-
- { 100,4265 }, { 101,4265 }, { 102,4265 }, { 103,4265 }, { 104,4265 },
- { 105,4265 }, { 106,4265 }, { 107,4265 }, { 108,4265 }, { 109,4265 },
- { 110,4265 }, { 111,4265 }, { 112,4265 }, { 113,4265 }, { 114,4265 },
- { 115,4265 }, { 116,4265 }, { 117,4265 }, { 118,4265 }, { 119,4265 },
- { 120,4265 }, { 121,4265 }, { 122,4265 }, { 123,4265 }, { 124,4265 },
- { 125,4265 }, { 126,4265 }, { 127,4265 }, { 128,4265 }, { 129,4265 },
- { 130,4265 }, { 131,4265 }, { 132,4265 }, { 133,4265 }, { 134,4265 },
- { 135,4265 }, { 136,4265 }, { 137,4265 }, { 138,4265 }, { 139,4265 },
- { 140,4265 }, { 141,4265 }, { 142,4265 }, { 143,4265 }, { 144,4265 },
- { 145,4265 }, { 146,4265 }, { 147,4265 }, { 148,4265 }, { 149,4265 },
-
- { 150,4265 }, { 151,4265 }, { 152,4265 }, { 153,4265 }, { 154,4265 },
- { 155,4265 }, { 156,4265 }, { 157,4265 }, { 158,4265 }, { 159,4265 },
- { 160,4265 }, { 161,4265 }, { 162,4265 }, { 163,4265 }, { 164,4265 },
- { 165,4265 }, { 166,4265 }, { 167,4265 }, { 168,4265 }, { 169,4265 },
- { 170,4265 }, { 171,4265 }, { 172,4265 }, { 173,4265 }, { 174,4265 },
- { 175,4265 }, { 176,4265 }, { 177,4265 }, { 178,4265 }, { 179,4265 },
- { 180,4265 }, { 181,4265 }, { 182,4265 }, { 183,4265 }, { 184,4265 },
- { 185,4265 }, { 186,4265 }, { 187,4265 }, { 188,4265 }, { 189,4265 },
- { 190,4265 }, { 191,4265 }, { 192,4265 }, { 193,4265 }, { 194,4265 },
- { 195,4265 }, { 196,4265 }, { 197,4265 }, { 198,4265 }, { 199,4265 },
-
- { 200,4265 }, { 201,4265 }, { 202,4265 }, { 203,4265 }, { 204,4265 },
- { 205,4265 }, { 206,4265 }, { 207,4265 }, { 208,4265 }, { 209,4265 },
- { 210,4265 }, { 211,4265 }, { 212,4265 }, { 213,4265 }, { 214,4265 },
- { 215,4265 }, { 216,4265 }, { 217,4265 }, { 218,4265 }, { 219,4265 },
- { 220,4265 }, { 221,4265 }, { 222,4265 }, { 223,4265 }, { 224,4265 },
- { 225,4265 }, { 226,4265 }, { 227,4265 }, { 228,4265 }, { 229,4265 },
- { 230,4265 }, { 231,4265 }, { 232,4265 }, { 233,4265 }, { 234,4265 },
- { 235,4265 }, { 236,4265 }, { 237,4265 }, { 238,4265 }, { 239,4265 },
- { 240,4265 }, { 241,4265 }, { 242,4265 }, { 243,4265 }, { 244,4265 },
- { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
-
- { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
- { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,18413 }, {   1,4523 },
- {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
- {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
- {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
- {  17,4523 }, {  18,4523 }, {  19,4523 }, {  20,4523 }, {  21,4523 },
- {  22,4523 }, {  23,4523 }, {  24,4523 }, {  25,4523 }, {  26,4523 },
- {  27,4523 }, {  28,4523 }, {  29,4523 }, {  30,4523 }, {  31,4523 },
- {  32,4523 }, {  33,4523 }, {  34,4523 }, {  35,4523 }, {  36,4523 },
- {  37,4523 }, {  38,4523 }, {  39,3977 }, {  40,4523 }, {  41,4523 },
-
- {  42,4523 }, {  43,4523 }, {  44,4523 }, {  45,4523 }, {  46,4523 },
- {  47,4523 }, {  48,4523 }, {  49,4523 }, {  50,4523 }, {  51,4523 },
- {  52,4523 }, {  53,4523 }, {  54,4523 }, {  55,4523 }, {  56,4523 },
- {  57,4523 }, {  58,4523 }, {  59,4523 }, {  60,4523 }, {  61,4523 },
- {  62,4523 }, {  63,4523 }, {  64,4523 }, {  65,4523 }, {  66,4523 },
- {  67,4523 }, {  68,4523 }, {  69,4523 }, {  70,4523 }, {  71,4523 },
- {  72,4523 }, {  73,4523 }, {  74,4523 }, {  75,4523 }, {  76,4523 },
- {  77,4523 }, {  78,4523 }, {  79,4523 }, {  80,4523 }, {  81,4523 },
- {  82,4523 }, {  83,4523 }, {  84,4523 }, {  85,4523 }, {  86,4523 },
- {  87,4523 }, {  88,4523 }, {  89,4523 }, {  90,4523 }, {  91,4523 },
-
- {  92,4781 }, {  93,4523 }, {  94,4523 }, {  95,4523 }, {  96,4523 },
- {  97,4523 }, {  98,4523 }, {  99,4523 }, { 100,4523 }, { 101,4523 },
- { 102,4523 }, { 103,4523 }, { 104,4523 }, { 105,4523 }, { 106,4523 },
- { 107,4523 }, { 108,4523 }, { 109,4523 }, { 110,4523 }, { 111,4523 },
- { 112,4523 }, { 113,4523 }, { 114,4523 }, { 115,4523 }, { 116,4523 },
- { 117,4523 }, { 118,4523 }, { 119,4523 }, { 120,4523 }, { 121,4523 },
- { 122,4523 }, { 123,4523 }, { 124,4523 }, { 125,4523 }, { 126,4523 },
- { 127,4523 }, { 128,4523 }, { 129,4523 }, { 130,4523 }, { 131,4523 },
- { 132,4523 }, { 133,4523 }, { 134,4523 }, { 135,4523 }, { 136,4523 },
- { 137,4523 }, { 138,4523 }, { 139,4523 }, { 140,4523 }, { 141,4523 },
-
- { 142,4523 }, { 143,4523 }, { 144,4523 }, { 145,4523 }, { 146,4523 },
- { 147,4523 }, { 148,4523 }, { 149,4523 }, { 150,4523 }, { 151,4523 },
- { 152,4523 }, { 153,4523 }, { 154,4523 }, { 155,4523 }, { 156,4523 },
- { 157,4523 }, { 158,4523 }, { 159,4523 }, { 160,4523 }, { 161,4523 },
- { 162,4523 }, { 163,4523 }, { 164,4523 }, { 165,4523 }, { 166,4523 },
- { 167,4523 }, { 168,4523 }, { 169,4523 }, { 170,4523 }, { 171,4523 },
- { 172,4523 }, { 173,4523 }, { 174,4523 }, { 175,4523 }, { 176,4523 },
- { 177,4523 }, { 178,4523 }, { 179,4523 }, { 180,4523 }, { 181,4523 },
- { 182,4523 }, { 183,4523 }, { 184,4523 }, { 185,4523 }, { 186,4523 },
- { 187,4523 }, { 188,4523 }, { 189,4523 }, { 190,4523 }, { 191,4523 },
-
- { 192,4523 }, { 193,4523 }, { 194,4523 }, { 195,4523 }, { 196,4523 },
- { 197,4523 }, { 198,4523 }, { 199,4523 }, { 200,4523 }, { 201,4523 },
- { 202,4523 }, { 203,4523 }, { 204,4523 }, { 205,4523 }, { 206,4523 },
- { 207,4523 }, { 208,4523 }, { 209,4523 }, { 210,4523 }, { 211,4523 },
- { 212,4523 }, { 213,4523 }, { 214,4523 }, { 215,4523 }, { 216,4523 },
- { 217,4523 }, { 218,4523 }, { 219,4523 }, { 220,4523 }, { 221,4523 },
- { 222,4523 }, { 223,4523 }, { 224,4523 }, { 225,4523 }, { 226,4523 },
- { 227,4523 }, { 228,4523 }, { 229,4523 }, { 230,4523 }, { 231,4523 },
- { 232,4523 }, { 233,4523 }, { 234,4523 }, { 235,4523 }, { 236,4523 },
- { 237,4523 }, { 238,4523 }, { 239,4523 }, { 240,4523 }, { 241,4523 },
-
- { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
- { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
- { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
- {   0,  51 }, {   0,18155 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
- {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
- {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
- {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
- {  19,3457 }, {  20,3457 }, {  21,3457 }, {  22,3457 }, {  23,3457 },
- {  24,3457 }, {  25,3457 }, {  26,3457 }, {  27,3457 }, {  28,3457 },
- {  29,3457 }, {  30,3457 }, {  31,3457 }, {  32,3432 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3457 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3432 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3457 }, {  46,3432 }, {  47,3432 }, {  48,4781 },
- {  49,4781 }, {  50,4781 }, {  51,4781 }, {  52,4781 }, {  53,4781 },
- {  54,4781 }, {  55,4781 }, {  56,4781 }, {  57,4781 }, {  58,3457 },
- {   0,   0 }, {   0,   0 }, {  61,3432 }, {   0,   0 }, {  63,3457 },
- {   0,   0 }, {  65,3457 }, {  66,3457 }, {  67,3457 }, {  68,3457 },
- {  69,3457 }, {  70,3457 }, {  71,3457 }, {  72,3457 }, {  73,3457 },
- {  74,3457 }, {  75,3457 }, {  76,3457 }, {  77,3457 }, {  78,3457 },
- {  79,3457 }, {  80,3457 }, {  81,3457 }, {  82,3457 }, {  83,3457 },
-
- {  84,3457 }, {  85,3457 }, {  86,3457 }, {  87,3457 }, {  88,3457 },
- {  89,3457 }, {  90,3457 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3457 }, {   0,   0 }, {  97,3457 }, {  98,3457 },
- {  99,3457 }, { 100,3457 }, { 101,3457 }, { 102,3457 }, { 103,3457 },
- { 104,3457 }, { 105,3457 }, { 106,3457 }, { 107,3457 }, { 108,3457 },
- { 109,3457 }, { 110,3457 }, { 111,3457 }, { 112,3457 }, { 113,3457 },
- { 114,3457 }, { 115,3457 }, { 116,3457 }, { 117,3457 }, { 118,3457 },
- { 119,3457 }, { 120,3457 }, { 121,3457 }, { 122,3457 }, {   0,   0 },
- { 124,3432 }, { 125,3432 }, { 126,3432 }, { 127,3457 }, { 128,3457 },
- { 129,3457 }, { 130,3457 }, { 131,3457 }, { 132,3457 }, { 133,3457 },
-
- { 134,3457 }, { 135,3457 }, { 136,3457 }, { 137,3457 }, { 138,3457 },
- { 139,3457 }, { 140,3457 }, { 141,3457 }, { 142,3457 }, { 143,3457 },
- { 144,3457 }, { 145,3457 }, { 146,3457 }, { 147,3457 }, { 148,3457 },
- { 149,3457 }, { 150,3457 }, { 151,3457 }, { 152,3457 }, { 153,3457 },
- { 154,3457 }, { 155,3457 }, { 156,3457 }, { 157,3457 }, { 158,3457 },
- { 159,3457 }, { 160,3457 }, { 161,3457 }, { 162,3457 }, { 163,3457 },
- { 164,3457 }, { 165,3457 }, { 166,3457 }, { 167,3457 }, { 168,3457 },
- { 169,3457 }, { 170,3457 }, { 171,3457 }, { 172,3457 }, { 173,3457 },
- { 174,3457 }, { 175,3457 }, { 176,3457 }, { 177,3457 }, { 178,3457 },
- { 179,3457 }, { 180,3457 }, { 181,3457 }, { 182,3457 }, { 183,3457 },
-
- { 184,3457 }, { 185,3457 }, { 186,3457 }, { 187,3457 }, { 188,3457 },
- { 189,3457 }, { 190,3457 }, { 191,3457 }, { 192,3457 }, { 193,3457 },
- { 194,3457 }, { 195,3457 }, { 196,3457 }, { 197,3457 }, { 198,3457 },
- { 199,3457 }, { 200,3457 }, { 201,3457 }, { 202,3457 }, { 203,3457 },
- { 204,3457 }, { 205,3457 }, { 206,3457 }, { 207,3457 }, { 208,3457 },
- { 209,3457 }, { 210,3457 }, { 211,3457 }, { 212,3457 }, { 213,3457 },
- { 214,3457 }, { 215,3457 }, { 216,3457 }, { 217,3457 }, { 218,3457 },
- { 219,3457 }, { 220,3457 }, { 221,3457 }, { 222,3457 }, { 223,3457 },
- { 224,3457 }, { 225,3457 }, { 226,3457 }, { 227,3457 }, { 228,3457 },
- { 229,3457 }, { 230,3457 }, { 231,3457 }, { 232,3457 }, { 233,3457 },
-
- { 234,3457 }, { 235,3457 }, { 236,3457 }, { 237,3457 }, { 238,3457 },
- { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
- { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
- { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
- { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,17897 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
- {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  51 }, {   0,17879 }, {   0,  43 }, {   0,17877 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,17848 }, {   0,  51 },
- {   0,17846 }, {   0,   7 }, {   0,17844 }, {   0,  52 }, {   0,17842 },
- {   0,  14 }, {   0,17840 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  51 }, {   0,17815 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
- {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
- {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
- {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
- {  19,3117 }, {  20,3117 }, {  21,3117 }, {  22,3117 }, {  23,3117 },
- {  24,3117 }, {  25,3117 }, {  26,3117 }, {  27,3117 }, {  28,3117 },
- {  29,3117 }, {  30,3117 }, {  31,3117 }, {  32,3387 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,3117 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3387 }, { 124,3463 }, { 125,3463 },
-
- { 126,3463 }, {  45,3117 }, {  46,4699 }, {  47,3092 }, {  48,4441 },
- {  49,4441 }, {  50,4441 }, {  51,4441 }, {  52,4441 }, {  53,4441 },
- {  54,4441 }, {  55,4441 }, {  56,4441 }, {  57,4441 }, {  58,3117 },
- { 123,6628 }, {   0,   0 }, {  61,3092 }, {   0,   0 }, {  63,3117 },
- {   0,   0 }, {  65,3117 }, {  66,3117 }, {  67,3117 }, {  68,3117 },
- {  69,3117 }, {  70,3117 }, {  71,3117 }, {  72,3117 }, {  73,3117 },
- {  74,3117 }, {  75,3117 }, {  76,3117 }, {  77,3117 }, {  78,3117 },
- {  79,3117 }, {  80,3117 }, {  81,3117 }, {  82,3117 }, {  83,3117 },
- {  84,3117 }, {  85,3117 }, {  86,3117 }, {  87,3117 }, {  88,3117 },
- {  89,3117 }, {  90,3117 }, {   0,   0 }, { 125,6599 }, { 126,6601 },
-
- { 125,6601 }, {  95,3117 }, {   0,   0 }, {  97,3117 }, {  98,3117 },
- {  99,3117 }, { 100,3117 }, { 101,3117 }, { 102,3117 }, { 103,3117 },
- { 104,3117 }, { 105,3117 }, { 106,3117 }, { 107,3117 }, { 108,3117 },
- { 109,3117 }, { 110,3117 }, { 111,3117 }, { 112,3117 }, { 113,3117 },
- { 114,3117 }, { 115,3117 }, { 116,3117 }, { 117,3117 }, { 118,3117 },
- { 119,3117 }, { 120,3117 }, { 121,3117 }, { 122,3117 }, {   0,   0 },
- { 124,3092 }, { 125,3387 }, { 126,3387 }, { 127,3117 }, { 128,3117 },
- { 129,3117 }, { 130,3117 }, { 131,3117 }, { 132,3117 }, { 133,3117 },
- { 134,3117 }, { 135,3117 }, { 136,3117 }, { 137,3117 }, { 138,3117 },
- { 139,3117 }, { 140,3117 }, { 141,3117 }, { 142,3117 }, { 143,3117 },
-
- { 144,3117 }, { 145,3117 }, { 146,3117 }, { 147,3117 }, { 148,3117 },
- { 149,3117 }, { 150,3117 }, { 151,3117 }, { 152,3117 }, { 153,3117 },
- { 154,3117 }, { 155,3117 }, { 156,3117 }, { 157,3117 }, { 158,3117 },
- { 159,3117 }, { 160,3117 }, { 161,3117 }, { 162,3117 }, { 163,3117 },
- { 164,3117 }, { 165,3117 }, { 166,3117 }, { 167,3117 }, { 168,3117 },
- { 169,3117 }, { 170,3117 }, { 171,3117 }, { 172,3117 }, { 173,3117 },
- { 174,3117 }, { 175,3117 }, { 176,3117 }, { 177,3117 }, { 178,3117 },
- { 179,3117 }, { 180,3117 }, { 181,3117 }, { 182,3117 }, { 183,3117 },
- { 184,3117 }, { 185,3117 }, { 186,3117 }, { 187,3117 }, { 188,3117 },
- { 189,3117 }, { 190,3117 }, { 191,3117 }, { 192,3117 }, { 193,3117 },
-
- { 194,3117 }, { 195,3117 }, { 196,3117 }, { 197,3117 }, { 198,3117 },
- { 199,3117 }, { 200,3117 }, { 201,3117 }, { 202,3117 }, { 203,3117 },
- { 204,3117 }, { 205,3117 }, { 206,3117 }, { 207,3117 }, { 208,3117 },
- { 209,3117 }, { 210,3117 }, { 211,3117 }, { 212,3117 }, { 213,3117 },
- { 214,3117 }, { 215,3117 }, { 216,3117 }, { 217,3117 }, { 218,3117 },
- { 219,3117 }, { 220,3117 }, { 221,3117 }, { 222,3117 }, { 223,3117 },
- { 224,3117 }, { 225,3117 }, { 226,3117 }, { 227,3117 }, { 228,3117 },
- { 229,3117 }, { 230,3117 }, { 231,3117 }, { 232,3117 }, { 233,3117 },
- { 234,3117 }, { 235,3117 }, { 236,3117 }, { 237,3117 }, { 238,3117 },
- { 239,3117 }, { 240,3117 }, { 241,3117 }, { 242,3117 }, { 243,3117 },
-
- { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
- { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
- { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,17557 },
- {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
- {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
- {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
- {  16,4500 }, {  17,4500 }, {  18,4500 }, {  19,4500 }, {  20,4500 },
- {  21,4500 }, {  22,4500 }, {  23,4500 }, {  24,4500 }, {  25,4500 },
- {  26,4500 }, {  27,4500 }, {  28,4500 }, {  29,4500 }, {  30,4500 },
- {  31,4500 }, {  32,4500 }, {  33,4500 }, {  34,4500 }, {  35,4500 },
-
- {  36,4500 }, {  37,4500 }, {  38,4500 }, {  39,4500 }, {  40,4500 },
- {  41,4500 }, {  42,4500 }, {  43,4500 }, {  44,4500 }, {  45,4500 },
- {  46,4500 }, {  47,4500 }, {  48,4500 }, {  49,4500 }, {  50,4500 },
- {  51,4500 }, {  52,4500 }, {  53,4500 }, {  54,4500 }, {  55,4500 },
- {  56,4500 }, {  57,4500 }, {  58,4500 }, {  59,4500 }, {  60,4500 },
- {  61,4500 }, {  62,4500 }, {  63,4500 }, {  64,4500 }, {  65,4500 },
- {  66,4500 }, {  67,4500 }, {  68,4500 }, {  69,4500 }, {  70,4500 },
- {  71,4500 }, {  72,4500 }, {  73,4500 }, {  74,4500 }, {  75,4500 },
- {  76,4500 }, {  77,4500 }, {  78,4500 }, {  79,4500 }, {  80,4500 },
- {  81,4500 }, {  82,4500 }, {  83,4500 }, {  84,4500 }, {  85,4500 },
-
- {  86,4500 }, {  87,4500 }, {  88,4500 }, {  89,4500 }, {  90,4500 },
- {  91,4500 }, {  92,4758 }, {  93,3132 }, {  94,4500 }, {  95,4500 },
- {  96,4500 }, {  97,4500 }, {  98,4500 }, {  99,4500 }, { 100,4500 },
- { 101,4500 }, { 102,4500 }, { 103,4500 }, { 104,4500 }, { 105,4500 },
- { 106,4500 }, { 107,4500 }, { 108,4500 }, { 109,4500 }, { 110,4500 },
- { 111,4500 }, { 112,4500 }, { 113,4500 }, { 114,4500 }, { 115,4500 },
- { 116,4500 }, { 117,4500 }, { 118,4500 }, { 119,4500 }, { 120,4500 },
- { 121,4500 }, { 122,4500 }, { 123,4500 }, { 124,4500 }, { 125,4500 },
- { 126,4500 }, { 127,4500 }, { 128,4500 }, { 129,4500 }, { 130,4500 },
- { 131,4500 }, { 132,4500 }, { 133,4500 }, { 134,4500 }, { 135,4500 },
-
- { 136,4500 }, { 137,4500 }, { 138,4500 }, { 139,4500 }, { 140,4500 },
- { 141,4500 }, { 142,4500 }, { 143,4500 }, { 144,4500 }, { 145,4500 },
- { 146,4500 }, { 147,4500 }, { 148,4500 }, { 149,4500 }, { 150,4500 },
- { 151,4500 }, { 152,4500 }, { 153,4500 }, { 154,4500 }, { 155,4500 },
- { 156,4500 }, { 157,4500 }, { 158,4500 }, { 159,4500 }, { 160,4500 },
- { 161,4500 }, { 162,4500 }, { 163,4500 }, { 164,4500 }, { 165,4500 },
- { 166,4500 }, { 167,4500 }, { 168,4500 }, { 169,4500 }, { 170,4500 },
- { 171,4500 }, { 172,4500 }, { 173,4500 }, { 174,4500 }, { 175,4500 },
- { 176,4500 }, { 177,4500 }, { 178,4500 }, { 179,4500 }, { 180,4500 },
- { 181,4500 }, { 182,4500 }, { 183,4500 }, { 184,4500 }, { 185,4500 },
-
- { 186,4500 }, { 187,4500 }, { 188,4500 }, { 189,4500 }, { 190,4500 },
- { 191,4500 }, { 192,4500 }, { 193,4500 }, { 194,4500 }, { 195,4500 },
- { 196,4500 }, { 197,4500 }, { 198,4500 }, { 199,4500 }, { 200,4500 },
- { 201,4500 }, { 202,4500 }, { 203,4500 }, { 204,4500 }, { 205,4500 },
- { 206,4500 }, { 207,4500 }, { 208,4500 }, { 209,4500 }, { 210,4500 },
- { 211,4500 }, { 212,4500 }, { 213,4500 }, { 214,4500 }, { 215,4500 },
- { 216,4500 }, { 217,4500 }, { 218,4500 }, { 219,4500 }, { 220,4500 },
- { 221,4500 }, { 222,4500 }, { 223,4500 }, { 224,4500 }, { 225,4500 },
- { 226,4500 }, { 227,4500 }, { 228,4500 }, { 229,4500 }, { 230,4500 },
- { 231,4500 }, { 232,4500 }, { 233,4500 }, { 234,4500 }, { 235,4500 },
-
- { 236,4500 }, { 237,4500 }, { 238,4500 }, { 239,4500 }, { 240,4500 },
- { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
- { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
- { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
- { 256,4500 }, {   0,  51 }, {   0,17299 }, {   1,2601 }, {   2,2601 },
- {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
- {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
- {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
- {  18,2601 }, {  19,2601 }, {  20,2601 }, {  21,2601 }, {  22,2601 },
- {  23,2601 }, {  24,2601 }, {  25,2601 }, {  26,2601 }, {  27,2601 },
-
- {  28,2601 }, {  29,2601 }, {  30,2601 }, {  31,2601 }, {  32,2576 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2601 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2576 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2601 }, {  46,2576 }, {  47,2576 },
- {  48,2601 }, {  49,2601 }, {  50,2601 }, {  51,2601 }, {  52,2601 },
- {  53,2601 }, {  54,2601 }, {  55,2601 }, {  56,2601 }, {  57,2601 },
- {  58,2601 }, {   0,   0 }, {   0,   0 }, {  61,2576 }, {   0,   0 },
- {  63,2601 }, {   0,   0 }, {  65,2601 }, {  66,2601 }, {  67,2601 },
- {  68,2601 }, {  69,2601 }, {  70,2601 }, {  71,2601 }, {  72,2601 },
- {  73,2601 }, {  74,2601 }, {  75,2601 }, {  76,2601 }, {  77,2601 },
-
- {  78,2601 }, {  79,2601 }, {  80,2601 }, {  81,2601 }, {  82,2601 },
- {  83,2601 }, {  84,2601 }, {  85,2601 }, {  86,2601 }, {  87,2601 },
- {  88,2601 }, {  89,2601 }, {  90,2601 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2601 }, {   0,   0 }, {  97,2601 },
- {  98,2601 }, {  99,2601 }, { 100,2601 }, { 101,2601 }, { 102,2601 },
- { 103,2601 }, { 104,2601 }, { 105,2601 }, { 106,2601 }, { 107,2601 },
- { 108,2601 }, { 109,2601 }, { 110,2601 }, { 111,2601 }, { 112,2601 },
- { 113,2601 }, { 114,2601 }, { 115,4758 }, { 116,2601 }, { 117,2601 },
- { 118,2601 }, { 119,2601 }, { 120,2601 }, { 121,2601 }, { 122,2601 },
- {   0,   0 }, { 124,2576 }, { 125,2576 }, { 126,2576 }, { 127,2601 },
-
- { 128,2601 }, { 129,2601 }, { 130,2601 }, { 131,2601 }, { 132,2601 },
- { 133,2601 }, { 134,2601 }, { 135,2601 }, { 136,2601 }, { 137,2601 },
- { 138,2601 }, { 139,2601 }, { 140,2601 }, { 141,2601 }, { 142,2601 },
- { 143,2601 }, { 144,2601 }, { 145,2601 }, { 146,2601 }, { 147,2601 },
- { 148,2601 }, { 149,2601 }, { 150,2601 }, { 151,2601 }, { 152,2601 },
- { 153,2601 }, { 154,2601 }, { 155,2601 }, { 156,2601 }, { 157,2601 },
- { 158,2601 }, { 159,2601 }, { 160,2601 }, { 161,2601 }, { 162,2601 },
- { 163,2601 }, { 164,2601 }, { 165,2601 }, { 166,2601 }, { 167,2601 },
- { 168,2601 }, { 169,2601 }, { 170,2601 }, { 171,2601 }, { 172,2601 },
- { 173,2601 }, { 174,2601 }, { 175,2601 }, { 176,2601 }, { 177,2601 },
-
- { 178,2601 }, { 179,2601 }, { 180,2601 }, { 181,2601 }, { 182,2601 },
- { 183,2601 }, { 184,2601 }, { 185,2601 }, { 186,2601 }, { 187,2601 },
- { 188,2601 }, { 189,2601 }, { 190,2601 }, { 191,2601 }, { 192,2601 },
- { 193,2601 }, { 194,2601 }, { 195,2601 }, { 196,2601 }, { 197,2601 },
- { 198,2601 }, { 199,2601 }, { 200,2601 }, { 201,2601 }, { 202,2601 },
- { 203,2601 }, { 204,2601 }, { 205,2601 }, { 206,2601 }, { 207,2601 },
- { 208,2601 }, { 209,2601 }, { 210,2601 }, { 211,2601 }, { 212,2601 },
- { 213,2601 }, { 214,2601 }, { 215,2601 }, { 216,2601 }, { 217,2601 },
- { 218,2601 }, { 219,2601 }, { 220,2601 }, { 221,2601 }, { 222,2601 },
- { 223,2601 }, { 224,2601 }, { 225,2601 }, { 226,2601 }, { 227,2601 },
-
- { 228,2601 }, { 229,2601 }, { 230,2601 }, { 231,2601 }, { 232,2601 },
- { 233,2601 }, { 234,2601 }, { 235,2601 }, { 236,2601 }, { 237,2601 },
- { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
- { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
- { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
- { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
- {   0,17041 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
- {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
- {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
- {  15,2343 }, {  16,2343 }, {  17,2343 }, {  18,2343 }, {  19,2343 },
-
- {  20,2343 }, {  21,2343 }, {  22,2343 }, {  23,2343 }, {  24,2343 },
- {  25,2343 }, {  26,2343 }, {  27,2343 }, {  28,2343 }, {  29,2343 },
- {  30,2343 }, {  31,2343 }, {  32,2318 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2318 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2343 }, {  46,2318 }, {  47,2318 }, {  48,2343 }, {  49,2343 },
- {  50,2343 }, {  51,2343 }, {  52,2343 }, {  53,2343 }, {  54,2343 },
- {  55,2343 }, {  56,2343 }, {  57,2343 }, {  58,2343 }, {   0,   0 },
- {   0,   0 }, {  61,2318 }, {   0,   0 }, {  63,2343 }, {   0,   0 },
- {  65,2343 }, {  66,2343 }, {  67,2343 }, {  68,2343 }, {  69,2343 },
-
- {  70,2343 }, {  71,2343 }, {  72,2343 }, {  73,2343 }, {  74,2343 },
- {  75,2343 }, {  76,2343 }, {  77,2343 }, {  78,2343 }, {  79,2343 },
- {  80,2343 }, {  81,2343 }, {  82,2343 }, {  83,2343 }, {  84,2343 },
- {  85,2343 }, {  86,2343 }, {  87,2343 }, {  88,2343 }, {  89,2343 },
- {  90,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2343 }, {   0,   0 }, {  97,4758 }, {  98,2343 }, {  99,2343 },
- { 100,2343 }, { 101,2343 }, { 102,2343 }, { 103,2343 }, { 104,2343 },
- { 105,2343 }, { 106,2343 }, { 107,2343 }, { 108,2343 }, { 109,2343 },
- { 110,2343 }, { 111,2343 }, { 112,2343 }, { 113,2343 }, { 114,2343 },
- { 115,2343 }, { 116,2343 }, { 117,2343 }, { 118,2343 }, { 119,2343 },
-
- { 120,2343 }, { 121,2343 }, { 122,2343 }, {   0,   0 }, { 124,2318 },
- { 125,2318 }, { 126,2318 }, { 127,2343 }, { 128,2343 }, { 129,2343 },
- { 130,2343 }, { 131,2343 }, { 132,2343 }, { 133,2343 }, { 134,2343 },
- { 135,2343 }, { 136,2343 }, { 137,2343 }, { 138,2343 }, { 139,2343 },
- { 140,2343 }, { 141,2343 }, { 142,2343 }, { 143,2343 }, { 144,2343 },
- { 145,2343 }, { 146,2343 }, { 147,2343 }, { 148,2343 }, { 149,2343 },
- { 150,2343 }, { 151,2343 }, { 152,2343 }, { 153,2343 }, { 154,2343 },
- { 155,2343 }, { 156,2343 }, { 157,2343 }, { 158,2343 }, { 159,2343 },
- { 160,2343 }, { 161,2343 }, { 162,2343 }, { 163,2343 }, { 164,2343 },
- { 165,2343 }, { 166,2343 }, { 167,2343 }, { 168,2343 }, { 169,2343 },
-
- { 170,2343 }, { 171,2343 }, { 172,2343 }, { 173,2343 }, { 174,2343 },
- { 175,2343 }, { 176,2343 }, { 177,2343 }, { 178,2343 }, { 179,2343 },
- { 180,2343 }, { 181,2343 }, { 182,2343 }, { 183,2343 }, { 184,2343 },
- { 185,2343 }, { 186,2343 }, { 187,2343 }, { 188,2343 }, { 189,2343 },
- { 190,2343 }, { 191,2343 }, { 192,2343 }, { 193,2343 }, { 194,2343 },
- { 195,2343 }, { 196,2343 }, { 197,2343 }, { 198,2343 }, { 199,2343 },
- { 200,2343 }, { 201,2343 }, { 202,2343 }, { 203,2343 }, { 204,2343 },
- { 205,2343 }, { 206,2343 }, { 207,2343 }, { 208,2343 }, { 209,2343 },
- { 210,2343 }, { 211,2343 }, { 212,2343 }, { 213,2343 }, { 214,2343 },
- { 215,2343 }, { 216,2343 }, { 217,2343 }, { 218,2343 }, { 219,2343 },
-
- { 220,2343 }, { 221,2343 }, { 222,2343 }, { 223,2343 }, { 224,2343 },
- { 225,2343 }, { 226,2343 }, { 227,2343 }, { 228,2343 }, { 229,2343 },
- { 230,2343 }, { 231,2343 }, { 232,2343 }, { 233,2343 }, { 234,2343 },
- { 235,2343 }, { 236,2343 }, { 237,2343 }, { 238,2343 }, { 239,2343 },
- { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
- { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
- { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
- { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,16783 }, {   1,2085 },
- {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
- {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
-
- {  12,2085 }, {  13,2060 }, {  14,2085 }, {  15,2085 }, {  16,2085 },
- {  17,2085 }, {  18,2085 }, {  19,2085 }, {  20,2085 }, {  21,2085 },
- {  22,2085 }, {  23,2085 }, {  24,2085 }, {  25,2085 }, {  26,2085 },
- {  27,2085 }, {  28,2085 }, {  29,2085 }, {  30,2085 }, {  31,2085 },
- {  32,2060 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2085 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2060 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2085 }, {  46,2060 },
- {  47,2060 }, {  48,2085 }, {  49,2085 }, {  50,2085 }, {  51,2085 },
- {  52,2085 }, {  53,2085 }, {  54,2085 }, {  55,2085 }, {  56,2085 },
- {  57,2085 }, {  58,2085 }, {   0,   0 }, {   0,   0 }, {  61,2060 },
-
- {   0,   0 }, {  63,2085 }, {   0,   0 }, {  65,2085 }, {  66,2085 },
- {  67,2085 }, {  68,2085 }, {  69,2085 }, {  70,2085 }, {  71,2085 },
- {  72,2085 }, {  73,2085 }, {  74,2085 }, {  75,2085 }, {  76,2085 },
- {  77,2085 }, {  78,2085 }, {  79,2085 }, {  80,2085 }, {  81,2085 },
- {  82,2085 }, {  83,2085 }, {  84,2085 }, {  85,2085 }, {  86,2085 },
- {  87,2085 }, {  88,2085 }, {  89,2085 }, {  90,2085 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2085 }, {   0,   0 },
- {  97,2085 }, {  98,2085 }, {  99,2085 }, { 100,2085 }, { 101,2085 },
- { 102,2085 }, { 103,2085 }, { 104,2085 }, { 105,2085 }, { 106,2085 },
- { 107,2085 }, { 108,2085 }, { 109,2085 }, { 110,2085 }, { 111,2085 },
-
- { 112,2085 }, { 113,2085 }, { 114,2085 }, { 115,2085 }, { 116,2085 },
- { 117,4758 }, { 118,2085 }, { 119,2085 }, { 120,2085 }, { 121,2085 },
- { 122,2085 }, {   0,   0 }, { 124,2060 }, { 125,2060 }, { 126,2060 },
- { 127,2085 }, { 128,2085 }, { 129,2085 }, { 130,2085 }, { 131,2085 },
- { 132,2085 }, { 133,2085 }, { 134,2085 }, { 135,2085 }, { 136,2085 },
- { 137,2085 }, { 138,2085 }, { 139,2085 }, { 140,2085 }, { 141,2085 },
- { 142,2085 }, { 143,2085 }, { 144,2085 }, { 145,2085 }, { 146,2085 },
- { 147,2085 }, { 148,2085 }, { 149,2085 }, { 150,2085 }, { 151,2085 },
- { 152,2085 }, { 153,2085 }, { 154,2085 }, { 155,2085 }, { 156,2085 },
- { 157,2085 }, { 158,2085 }, { 159,2085 }, { 160,2085 }, { 161,2085 },
-
- { 162,2085 }, { 163,2085 }, { 164,2085 }, { 165,2085 }, { 166,2085 },
- { 167,2085 }, { 168,2085 }, { 169,2085 }, { 170,2085 }, { 171,2085 },
- { 172,2085 }, { 173,2085 }, { 174,2085 }, { 175,2085 }, { 176,2085 },
- { 177,2085 }, { 178,2085 }, { 179,2085 }, { 180,2085 }, { 181,2085 },
- { 182,2085 }, { 183,2085 }, { 184,2085 }, { 185,2085 }, { 186,2085 },
- { 187,2085 }, { 188,2085 }, { 189,2085 }, { 190,2085 }, { 191,2085 },
- { 192,2085 }, { 193,2085 }, { 194,2085 }, { 195,2085 }, { 196,2085 },
- { 197,2085 }, { 198,2085 }, { 199,2085 }, { 200,2085 }, { 201,2085 },
- { 202,2085 }, { 203,2085 }, { 204,2085 }, { 205,2085 }, { 206,2085 },
- { 207,2085 }, { 208,2085 }, { 209,2085 }, { 210,2085 }, { 211,2085 },
-
- { 212,2085 }, { 213,2085 }, { 214,2085 }, { 215,2085 }, { 216,2085 },
- { 217,2085 }, { 218,2085 }, { 219,2085 }, { 220,2085 }, { 221,2085 },
- { 222,2085 }, { 223,2085 }, { 224,2085 }, { 225,2085 }, { 226,2085 },
- { 227,2085 }, { 228,2085 }, { 229,2085 }, { 230,2085 }, { 231,2085 },
- { 232,2085 }, { 233,2085 }, { 234,2085 }, { 235,2085 }, { 236,2085 },
- { 237,2085 }, { 238,2085 }, { 239,2085 }, { 240,2085 }, { 241,2085 },
- { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
- { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
- { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
- {   0,  51 }, {   0,16525 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
-
- {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
- {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
- {  14,1827 }, {  15,1827 }, {  16,1827 }, {  17,1827 }, {  18,1827 },
- {  19,1827 }, {  20,1827 }, {  21,1827 }, {  22,1827 }, {  23,1827 },
- {  24,1827 }, {  25,1827 }, {  26,1827 }, {  27,1827 }, {  28,1827 },
- {  29,1827 }, {  30,1827 }, {  31,1827 }, {  32,1802 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1827 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1802 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1827 }, {  46,1802 }, {  47,1802 }, {  48,1827 },
- {  49,1827 }, {  50,1827 }, {  51,1827 }, {  52,1827 }, {  53,1827 },
-
- {  54,1827 }, {  55,1827 }, {  56,1827 }, {  57,1827 }, {  58,1827 },
- {   0,   0 }, {   0,   0 }, {  61,1802 }, {   0,   0 }, {  63,1827 },
- {   0,   0 }, {  65,1827 }, {  66,1827 }, {  67,1827 }, {  68,1827 },
- {  69,1827 }, {  70,1827 }, {  71,1827 }, {  72,1827 }, {  73,1827 },
- {  74,1827 }, {  75,1827 }, {  76,1827 }, {  77,1827 }, {  78,1827 },
- {  79,1827 }, {  80,1827 }, {  81,1827 }, {  82,1827 }, {  83,1827 },
- {  84,1827 }, {  85,1827 }, {  86,1827 }, {  87,1827 }, {  88,1827 },
- {  89,1827 }, {  90,1827 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1827 }, {   0,   0 }, {  97,1827 }, {  98,1827 },
- {  99,1827 }, { 100,1827 }, { 101,1827 }, { 102,1827 }, { 103,1827 },
-
- { 104,1827 }, { 105,1827 }, { 106,1827 }, { 107,1827 }, { 108,1827 },
- { 109,1827 }, { 110,1827 }, { 111,1827 }, { 112,1827 }, { 113,1827 },
- { 114,4758 }, { 115,1827 }, { 116,1827 }, { 117,1827 }, { 118,1827 },
- { 119,1827 }, { 120,1827 }, { 121,1827 }, { 122,1827 }, {   0,   0 },
- { 124,1802 }, { 125,1802 }, { 126,1802 }, { 127,1827 }, { 128,1827 },
- { 129,1827 }, { 130,1827 }, { 131,1827 }, { 132,1827 }, { 133,1827 },
- { 134,1827 }, { 135,1827 }, { 136,1827 }, { 137,1827 }, { 138,1827 },
- { 139,1827 }, { 140,1827 }, { 141,1827 }, { 142,1827 }, { 143,1827 },
- { 144,1827 }, { 145,1827 }, { 146,1827 }, { 147,1827 }, { 148,1827 },
- { 149,1827 }, { 150,1827 }, { 151,1827 }, { 152,1827 }, { 153,1827 },
-
- { 154,1827 }, { 155,1827 }, { 156,1827 }, { 157,1827 }, { 158,1827 },
- { 159,1827 }, { 160,1827 }, { 161,1827 }, { 162,1827 }, { 163,1827 },
- { 164,1827 }, { 165,1827 }, { 166,1827 }, { 167,1827 }, { 168,1827 },
- { 169,1827 }, { 170,1827 }, { 171,1827 }, { 172,1827 }, { 173,1827 },
- { 174,1827 }, { 175,1827 }, { 176,1827 }, { 177,1827 }, { 178,1827 },
- { 179,1827 }, { 180,1827 }, { 181,1827 }, { 182,1827 }, { 183,1827 },
- { 184,1827 }, { 185,1827 }, { 186,1827 }, { 187,1827 }, { 188,1827 },
- { 189,1827 }, { 190,1827 }, { 191,1827 }, { 192,1827 }, { 193,1827 },
- { 194,1827 }, { 195,1827 }, { 196,1827 }, { 197,1827 }, { 198,1827 },
- { 199,1827 }, { 200,1827 }, { 201,1827 }, { 202,1827 }, { 203,1827 },
-
- { 204,1827 }, { 205,1827 }, { 206,1827 }, { 207,1827 }, { 208,1827 },
- { 209,1827 }, { 210,1827 }, { 211,1827 }, { 212,1827 }, { 213,1827 },
- { 214,1827 }, { 215,1827 }, { 216,1827 }, { 217,1827 }, { 218,1827 },
- { 219,1827 }, { 220,1827 }, { 221,1827 }, { 222,1827 }, { 223,1827 },
- { 224,1827 }, { 225,1827 }, { 226,1827 }, { 227,1827 }, { 228,1827 },
- { 229,1827 }, { 230,1827 }, { 231,1827 }, { 232,1827 }, { 233,1827 },
- { 234,1827 }, { 235,1827 }, { 236,1827 }, { 237,1827 }, { 238,1827 },
- { 239,1827 }, { 240,1827 }, { 241,1827 }, { 242,1827 }, { 243,1827 },
- { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
- { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
-
- { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,16267 },
- {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
- {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
- {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
- {  16,1569 }, {  17,1569 }, {  18,1569 }, {  19,1569 }, {  20,1569 },
- {  21,1569 }, {  22,1569 }, {  23,1569 }, {  24,1569 }, {  25,1569 },
- {  26,1569 }, {  27,1569 }, {  28,1569 }, {  29,1569 }, {  30,1569 },
- {  31,1569 }, {  32,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1569 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1569 },
-
- {  46,1544 }, {  47,1544 }, {  48,1569 }, {  49,1569 }, {  50,1569 },
- {  51,1569 }, {  52,1569 }, {  53,1569 }, {  54,1569 }, {  55,1569 },
- {  56,1569 }, {  57,1569 }, {  58,1569 }, {   0,   0 }, {   0,   0 },
- {  61,1544 }, {   0,   0 }, {  63,1569 }, {   0,   0 }, {  65,1569 },
- {  66,1569 }, {  67,1569 }, {  68,1569 }, {  69,1569 }, {  70,1569 },
- {  71,1569 }, {  72,1569 }, {  73,1569 }, {  74,1569 }, {  75,1569 },
- {  76,1569 }, {  77,1569 }, {  78,1569 }, {  79,1569 }, {  80,1569 },
- {  81,1569 }, {  82,1569 }, {  83,1569 }, {  84,1569 }, {  85,1569 },
- {  86,1569 }, {  87,1569 }, {  88,1569 }, {  89,1569 }, {  90,1569 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1569 },
-
- {   0,   0 }, {  97,1569 }, {  98,1569 }, {  99,1569 }, { 100,1569 },
- { 101,1569 }, { 102,1569 }, { 103,1569 }, { 104,1569 }, { 105,1569 },
- { 106,1569 }, { 107,1569 }, { 108,1569 }, { 109,1569 }, { 110,4758 },
- { 111,1569 }, { 112,1569 }, { 113,1569 }, { 114,1569 }, { 115,1569 },
- { 116,1569 }, { 117,1569 }, { 118,1569 }, { 119,1569 }, { 120,1569 },
- { 121,1569 }, { 122,1569 }, {   0,   0 }, { 124,1544 }, { 125,1544 },
- { 126,1544 }, { 127,1569 }, { 128,1569 }, { 129,1569 }, { 130,1569 },
- { 131,1569 }, { 132,1569 }, { 133,1569 }, { 134,1569 }, { 135,1569 },
- { 136,1569 }, { 137,1569 }, { 138,1569 }, { 139,1569 }, { 140,1569 },
- { 141,1569 }, { 142,1569 }, { 143,1569 }, { 144,1569 }, { 145,1569 },
-
- { 146,1569 }, { 147,1569 }, { 148,1569 }, { 149,1569 }, { 150,1569 },
- { 151,1569 }, { 152,1569 }, { 153,1569 }, { 154,1569 }, { 155,1569 },
- { 156,1569 }, { 157,1569 }, { 158,1569 }, { 159,1569 }, { 160,1569 },
- { 161,1569 }, { 162,1569 }, { 163,1569 }, { 164,1569 }, { 165,1569 },
- { 166,1569 }, { 167,1569 }, { 168,1569 }, { 169,1569 }, { 170,1569 },
- { 171,1569 }, { 172,1569 }, { 173,1569 }, { 174,1569 }, { 175,1569 },
- { 176,1569 }, { 177,1569 }, { 178,1569 }, { 179,1569 }, { 180,1569 },
- { 181,1569 }, { 182,1569 }, { 183,1569 }, { 184,1569 }, { 185,1569 },
- { 186,1569 }, { 187,1569 }, { 188,1569 }, { 189,1569 }, { 190,1569 },
- { 191,1569 }, { 192,1569 }, { 193,1569 }, { 194,1569 }, { 195,1569 },
-
- { 196,1569 }, { 197,1569 }, { 198,1569 }, { 199,1569 }, { 200,1569 },
- { 201,1569 }, { 202,1569 }, { 203,1569 }, { 204,1569 }, { 205,1569 },
- { 206,1569 }, { 207,1569 }, { 208,1569 }, { 209,1569 }, { 210,1569 },
- { 211,1569 }, { 212,1569 }, { 213,1569 }, { 214,1569 }, { 215,1569 },
- { 216,1569 }, { 217,1569 }, { 218,1569 }, { 219,1569 }, { 220,1569 },
- { 221,1569 }, { 222,1569 }, { 223,1569 }, { 224,1569 }, { 225,1569 },
- { 226,1569 }, { 227,1569 }, { 228,1569 }, { 229,1569 }, { 230,1569 },
- { 231,1569 }, { 232,1569 }, { 233,1569 }, { 234,1569 }, { 235,1569 },
- { 236,1569 }, { 237,1569 }, { 238,1569 }, { 239,1569 }, { 240,1569 },
- { 241,1569 }, { 242,1569 }, { 243,1569 }, { 244,1569 }, { 245,1569 },
-
- { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
- { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
- { 256,1569 }, {   0,  14 }, {   0,16009 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,4766 }, {   0,  14 }, {   0,15884 }, {   1,4769 }, {   2,4769 },
- {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
- {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
-
- {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
- {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
- {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
- {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
- {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
- {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
- {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
- {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
- {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
- {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
-
- {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
- {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
- {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
- {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
- {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
- {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
- {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
- {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
- { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
- { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
-
- { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
- { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
- { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
- { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
- { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
- { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
- { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
- { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
- { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
- { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
-
- { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
- { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
- { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
- { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
- { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
- { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
- { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
- { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
- { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
- { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
-
- { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
- { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
- { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
- { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
- { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
- { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
- { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
- { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
- {   0,15626 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
-
- {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
- {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
- {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
- {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
- {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
- {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
- {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
- {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
- {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
- {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
-
- {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
- {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
- {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
- {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
- {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
- {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
- {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
- {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
- {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
- { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
-
- { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
- { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
- { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
- { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
- { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
- { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
- { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
- { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
- { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
- { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
-
- { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
- { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
- { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
- { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
- { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
- { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
- { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
- { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
- { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
- { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
-
- { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
- { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
- { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
- { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
- { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
- { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
- { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
- { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
- { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
- { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
-
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,15368 }, {   1,4769 },
- {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
- {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
- {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
- {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
- {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
- {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
- {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
- {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
- {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
-
- {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
- {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
- {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
- {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
- {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
- {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
- {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
- {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
- {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
- {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
-
- {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
- { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
- { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
- { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
- { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
- { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
- { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
- { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
- { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
- { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
-
- { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
- { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
- { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
- { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
- { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
- { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
- { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
- { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
- { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
- { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
-
- { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
- { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
- { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
- { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
- { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
- { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
- { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
- { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
- { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
- { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
-
- { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
- { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,15111 }, {   0,  11 }, {   0,15109 }, {   0,   2 }, {   0,15107 },
- {   0,   0 }, {   0,15105 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  10,   0 },
- {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  92,   2 }, {   0,   0 }, {  92,4765 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,14986 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,-121 }, {  11,   0 }, {  12,   0 }, {  13,-121 }, {  14,   0 },
-
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
-
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92,-119 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
-
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
-
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
-
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,14729 }, {   0,   0 }, {   0,14727 },
- {   0,   5 }, {   0,14725 }, {   0,  49 }, {   0,14723 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,14698 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
- {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
-
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
- {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
-
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
-
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
-
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
-
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,14440 }, {   0,  39 }, {   0,14438 }, {   0,  40 },
- {   0,14436 }, {   0,  34 }, {   0,14434 }, {   0,  33 }, {   0,14432 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14428 }, {  13,   0 },
- {   0,  50 }, {   0,14425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,14406 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
-
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
-
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
-
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
-
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
-
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14148 }, {   1,-258 },
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
-
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
- {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
-
- {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
- {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
- {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
- {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
- {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
- { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
- { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
- { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
- { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
- { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
-
- { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
- { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
- { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
- { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
- { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
- { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
- { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
- { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
- { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
- { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
-
- { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
- { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
- { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
- { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
- { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
- { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
- { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
- { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
- { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
- { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
-
- { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
- { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
- { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
- { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
- { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
- { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,13890 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13632 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,13374 }, {   1,-1324 }, {   2,-1324 },
-
- {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
- {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
- {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
- {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
- {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
- {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
-
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
- {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
- {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
- {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
- {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
- {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
- {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
- {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
-
- { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
- { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
- { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
- { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
- {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
- { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
- { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
- { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
- { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
- { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
-
- { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
- { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
- { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
- { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
- { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
- { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
- { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
- { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
- { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
- { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
-
- { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
- { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
- { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
- { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
- { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
- { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
- { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
- { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
- { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
- { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
-
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
- {   0,13116 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
- {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,13057 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
- {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
-
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
-
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
-
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
-
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
-
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,12799 }, {   1,-258 }, {   2,-258 },
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
- {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
-
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
- {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
- {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
-
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
- {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
- { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
-
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
-
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
-
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,12541 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
- {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
- {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
-
- {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
- {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,3487 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
- {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
- {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
- {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
- {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
-
- {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
- {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
- {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
- {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
- {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
- { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
- { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
- { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
- { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
-
- { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
- { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
- { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
- { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
- { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
- { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
- { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
- { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
- { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
- { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
-
- { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
- { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
- { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
- { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
- { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
- { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
- { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
- { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
- { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
- { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
-
- { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
- { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
- { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
- { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
- { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
- { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
- { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12283 }, {   1,-2415 },
- {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
- {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
-
- {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
- {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
- {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
- {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
- {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
- {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
- {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
- {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
-
- {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
- {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
- {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
- {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
- {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
- {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
- {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
- { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,3289 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
-
- { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
- { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
- { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
- { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
- { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
- { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
- { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
- { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
- { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
- { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
-
- { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
- { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
- { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
- { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
- { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
- { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
- { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
- { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
- { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
- { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
-
- { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
- { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
- { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
- { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
- { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
- { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
- { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
- { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
- { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,12025 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
-
- {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
- {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
- {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
- {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
- {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
- {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
- {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
-
- {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
- {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
- {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
- {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
- {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
- {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
- {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
- {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
- {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
-
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3289 },
- { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
- { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
- { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
- { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
- { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
- { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
- { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
- { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
- { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
-
- { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
- { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
- { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
- { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
- { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
- { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
- { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
- { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
- { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
- { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
-
- { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
- { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
- { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
- { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
- { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
- { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
- { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
- { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
- { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
- { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
-
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,11767 },
- {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
- {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
- {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
- {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
- {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
- {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
- {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
-
- {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
- {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
- {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
- {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
- {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
- {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
- {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
- {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
- {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
-
- {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
- { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
- { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
- { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,3289 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
- { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
- { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
- { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
- { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
- { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
-
- { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
- { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
- { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
- { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
- { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
- { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
- { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
- { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
- { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
- { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
-
- { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
- { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
- { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
- { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
- { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
- { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
- { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
- { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
- { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
- { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
-
- { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
- { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,11509 }, {   1,-3189 }, {   2,-3189 },
- {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
- {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
- {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
- {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
- {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
- {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
- {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
- {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
- {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
- {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
- {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
- {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
- {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
- {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
-
- {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,3289 }, { 101,-3189 }, { 102,-3189 },
- { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
- { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
- { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
- { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
- {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
- { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
- { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
-
- { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
- { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
- { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
- { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
- { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
- { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
- { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
- { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
- { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
- { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
-
- { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
- { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
- { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
- { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
- { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
- { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
- { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
- { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
- { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
- { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
-
- { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
- { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
- { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,11251 }, {   0,  38 }, {   0,11249 }, {   0,   0 }, {   0,11247 },
- {   0,   0 }, {   0,11245 }, {   0,   0 }, {   0,11243 }, {   9,3289 },
- {  10,3289 }, {   0,  13 }, {   0,11239 }, {  13,3289 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,3289 }, {  33, 917 }, {   0,   0 },
- {  35, 919 }, {   0,   0 }, {   0,   0 }, {  38, 921 }, {   0,   0 },
- {   0,   0 }, {  33,3414 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47, 925 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62, 927 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3291 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1022 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
- {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
-
- {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,2309 },
- {   0,   0 }, {   0,11115 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
-
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10857 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
-
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
-
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
-
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
-
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
-
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,10599 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
-
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
-
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
-
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
-
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
-
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,10342 },
- {   0,   0 }, {   0,10340 }, {   0,   0 }, {   0,10338 }, {   0,   5 },
- {   0,10336 }, {   0,  30 }, {   0,10334 }, {   0,  21 }, {   0,10332 },
- {   0,  28 }, {   0,10330 }, {   0,  31 }, {   0,10328 }, {   0,  22 },
- {   0,10326 }, {   0,  19 }, {   0,10324 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  42,2773 }, {  45,2773 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  62,2777 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,10229 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, { 123,2386 }, {   0,   0 }, { 123,2769 },
- {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,10213 }, {   1,2769 },
- {   2,2769 }, {   3,2769 }, {   4,2769 }, {   5,2769 }, {   6,2769 },
- {   7,2769 }, {   8,2769 }, {   9,2769 }, {  10,2646 }, {  11,2769 },
- {  12,2769 }, {  13,2646 }, {  14,2769 }, {  15,2769 }, {  16,2769 },
- {  17,2769 }, {  18,2769 }, {  19,2769 }, {  20,2769 }, {  21,2769 },
- {  22,2769 }, {  23,2769 }, {  24,2769 }, {  25,2769 }, {  26,2769 },
- {  27,2769 }, {  28,2769 }, {  29,2769 }, {  30,2769 }, {  31,2769 },
- {  32,2769 }, {  33,2769 }, {  34,2769 }, {  35,2769 }, {  36,2769 },
- {  37,2769 }, {  38,2769 }, {  39,2769 }, {  40,2769 }, {  41,2769 },
-
- {  42,2769 }, {  43,2769 }, {  44,2769 }, {  45,2769 }, {  46,2769 },
- {  47,2769 }, {  48,2769 }, {  49,2769 }, {  50,2769 }, {  51,2769 },
- {  52,2769 }, {  53,2769 }, {  54,2769 }, {  55,2769 }, {  56,2769 },
- {  57,2769 }, {  58,2769 }, {  59,2769 }, {  60,2769 }, {  61,2769 },
- {  62,2769 }, {  63,2769 }, {  64,2769 }, {  65,2769 }, {  66,2769 },
- {  67,2769 }, {  68,2769 }, {  69,2769 }, {  70,2769 }, {  71,2769 },
- {  72,2769 }, {  73,2769 }, {  74,2769 }, {  75,2769 }, {  76,2769 },
- {  77,2769 }, {  78,2769 }, {  79,2769 }, {  80,2769 }, {  81,2769 },
- {  82,2769 }, {  83,2769 }, {  84,2769 }, {  85,2769 }, {  86,2769 },
- {  87,2769 }, {  88,2769 }, {  89,2769 }, {  90,2769 }, {  91,2769 },
-
- { 108,3336 }, {  93,2769 }, {  94,2769 }, {  95,2769 }, {  96,2769 },
- {  97,2769 }, {  98,2769 }, {  99,2769 }, { 100,2769 }, { 101,2769 },
- { 102,2769 }, { 103,2769 }, { 104,2769 }, { 105,2769 }, { 106,2769 },
- { 107,2769 }, { 108,2769 }, { 109,2769 }, { 110,2769 }, { 111,2769 },
- { 112,2769 }, { 113,2769 }, { 114,2769 }, { 115,2769 }, { 116,2769 },
- { 117,2769 }, { 118,2769 }, { 119,2769 }, { 120,2769 }, { 121,2769 },
- { 122,2769 }, { 123,3026 }, { 124,2769 }, { 125,2769 }, { 126,2769 },
- { 127,2769 }, { 128,2769 }, { 129,2769 }, { 130,2769 }, { 131,2769 },
- { 132,2769 }, { 133,2769 }, { 134,2769 }, { 135,2769 }, { 136,2769 },
- { 137,2769 }, { 138,2769 }, { 139,2769 }, { 140,2769 }, { 141,2769 },
-
- { 142,2769 }, { 143,2769 }, { 144,2769 }, { 145,2769 }, { 146,2769 },
- { 147,2769 }, { 148,2769 }, { 149,2769 }, { 150,2769 }, { 151,2769 },
- { 152,2769 }, { 153,2769 }, { 154,2769 }, { 155,2769 }, { 156,2769 },
- { 157,2769 }, { 158,2769 }, { 159,2769 }, { 160,2769 }, { 161,2769 },
- { 162,2769 }, { 163,2769 }, { 164,2769 }, { 165,2769 }, { 166,2769 },
- { 167,2769 }, { 168,2769 }, { 169,2769 }, { 170,2769 }, { 171,2769 },
- { 172,2769 }, { 173,2769 }, { 174,2769 }, { 175,2769 }, { 176,2769 },
- { 177,2769 }, { 178,2769 }, { 179,2769 }, { 180,2769 }, { 181,2769 },
- { 182,2769 }, { 183,2769 }, { 184,2769 }, { 185,2769 }, { 186,2769 },
- { 187,2769 }, { 188,2769 }, { 189,2769 }, { 190,2769 }, { 191,2769 },
-
- { 192,2769 }, { 193,2769 }, { 194,2769 }, { 195,2769 }, { 196,2769 },
- { 197,2769 }, { 198,2769 }, { 199,2769 }, { 200,2769 }, { 201,2769 },
- { 202,2769 }, { 203,2769 }, { 204,2769 }, { 205,2769 }, { 206,2769 },
- { 207,2769 }, { 208,2769 }, { 209,2769 }, { 210,2769 }, { 211,2769 },
- { 212,2769 }, { 213,2769 }, { 214,2769 }, { 215,2769 }, { 216,2769 },
- { 217,2769 }, { 218,2769 }, { 219,2769 }, { 220,2769 }, { 221,2769 },
- { 222,2769 }, { 223,2769 }, { 224,2769 }, { 225,2769 }, { 226,2769 },
- { 227,2769 }, { 228,2769 }, { 229,2769 }, { 230,2769 }, { 231,2769 },
- { 232,2769 }, { 233,2769 }, { 234,2769 }, { 235,2769 }, { 236,2769 },
- { 237,2769 }, { 238,2769 }, { 239,2769 }, { 240,2769 }, { 241,2769 },
-
- { 242,2769 }, { 243,2769 }, { 244,2769 }, { 245,2769 }, { 246,2769 },
- { 247,2769 }, { 248,2769 }, { 249,2769 }, { 250,2769 }, { 251,2769 },
- { 252,2769 }, { 253,2769 }, { 254,2769 }, { 255,2769 }, {   0,  39 },
- {   0,9956 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
- {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
- {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
- {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
- {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
- {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
- {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
-
- {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
- {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
- {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
- {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
- {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
- {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
- {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
- {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
- {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
- {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
-
- {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
- {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
- {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
- { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
- { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
- { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
- { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
- { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
- { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
- { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
-
- { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
- { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
- { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
- { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
- { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
- { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
- { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
- { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
- { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
- { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
-
- { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
- { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
- { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
- { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
- { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
- { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
- { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
- { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
- { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
- { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
-
- { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
- { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
- { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
- { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,9698 }, {   1,-4192 },
- {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
- {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
- {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
- {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
- {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
-
- {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
- {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
- {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
- {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
- {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
- {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
- {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
- {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
- {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
- {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
-
- {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
- {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
- {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
- {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
- {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
- { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
- { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
- { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
- { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
- { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
-
- { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
- { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
- { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
- { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
- { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
- { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
- { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
- { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
- { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
- { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
-
- { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
- { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
- { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
- { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
- { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
- { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
- { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
- { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
- { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
- { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
-
- { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
- { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
- { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
- { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
- { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
- { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,9440 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   9,1875 }, {  10,1875 }, {   0,   0 }, {   0,   0 }, {  13,1875 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1875 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1875 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  50 }, {   0,9312 },
- {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
- {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
- {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
- {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
- {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
- {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
- {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
- {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
-
- {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
- {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
- {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
- {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
- {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
- {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
- {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
- {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
- {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
- {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
-
- {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
- {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
- { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
- { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
- { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
- { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
- { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
- { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
- { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
- { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
-
- { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
- { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
- { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
- { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
- { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
- { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
- { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
- { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
- { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
- { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
-
- { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
- { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
- { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
- { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
- { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
- { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
- { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
- { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
- { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
- { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
-
- { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
- { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
- { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  49 }, {   0,9054 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,2124 }, {  10,2124 }, {   0,   0 }, {   0,   0 },
- {  13,2124 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  27 },
- {   0,9026 }, {   0,   0 }, {   0,  37 }, {   0,9023 }, {  32,2124 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,8996 }, {   0,   0 }, {   0,8994 }, {   1,-5704 }, {   2,-5704 },
- {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
- {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
- {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
- {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
-
- {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
- {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  38 }, {   0,8960 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
- {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
- {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
- {  58,-5704 }, {   0,   0 }, {   0,8934 }, {  61,-5729 }, {   0,   0 },
- {  63,-5704 }, { 124,1491 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
- {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
-
- {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
- {  78,-5704 }, {  79,-5704 }, {  80,-5704 }, {  81,-5704 }, {  82,-5704 },
- {  83,-5704 }, {  84,-5704 }, {  85,-5704 }, {  86,-5704 }, {  87,-5704 },
- {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,2135 }, {   0,   0 },
- {  33,1105 }, {   0,   0 }, {  95,-5704 }, { 125,2136 }, {  97,-5704 },
- {  98,-5704 }, {  99,-5704 }, { 100,-5704 }, { 101,-5704 }, { 102,-5704 },
- { 103,-5704 }, { 104,-5704 }, { 105,-5704 }, { 106,-5704 }, { 107,-5704 },
- { 108,-5704 }, { 109,-5704 }, { 110,-5704 }, { 111,-5704 }, { 112,-5704 },
- { 113,-5704 }, { 114,-5704 }, { 115,2124 }, { 116,-5704 }, { 117,-5704 },
- { 118,-5704 }, { 119,-5704 }, { 120,-5704 }, { 121,-5704 }, { 122,-5704 },
-
- { 125,2111 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
- { 128,-5704 }, { 129,-5704 }, { 130,-5704 }, { 131,-5704 }, { 132,-5704 },
- { 133,-5704 }, { 134,-5704 }, { 135,-5704 }, { 136,-5704 }, { 137,-5704 },
- { 138,-5704 }, { 139,-5704 }, { 140,-5704 }, { 141,-5704 }, { 142,-5704 },
- { 143,-5704 }, { 144,-5704 }, { 145,-5704 }, { 146,-5704 }, { 147,-5704 },
- { 148,-5704 }, { 149,-5704 }, { 150,-5704 }, { 151,-5704 }, { 152,-5704 },
- { 153,-5704 }, { 154,-5704 }, { 155,-5704 }, { 156,-5704 }, { 157,-5704 },
- { 158,-5704 }, { 159,-5704 }, { 160,-5704 }, { 161,-5704 }, { 162,-5704 },
- { 163,-5704 }, { 164,-5704 }, { 165,-5704 }, { 166,-5704 }, { 167,-5704 },
- { 168,-5704 }, { 169,-5704 }, { 170,-5704 }, { 171,-5704 }, { 172,-5704 },
-
- { 173,-5704 }, { 174,-5704 }, { 175,-5704 }, { 176,-5704 }, { 177,-5704 },
- { 178,-5704 }, { 179,-5704 }, { 180,-5704 }, { 181,-5704 }, { 182,-5704 },
- { 183,-5704 }, { 184,-5704 }, { 185,-5704 }, { 186,-5704 }, { 187,-5704 },
- { 188,-5704 }, { 189,-5704 }, { 190,-5704 }, { 191,-5704 }, { 192,-5704 },
- { 193,-5704 }, { 194,-5704 }, { 195,-5704 }, { 196,-5704 }, { 197,-5704 },
- { 198,-5704 }, { 199,-5704 }, { 200,-5704 }, { 201,-5704 }, { 202,-5704 },
- { 203,-5704 }, { 204,-5704 }, { 205,-5704 }, { 206,-5704 }, { 207,-5704 },
- { 208,-5704 }, { 209,-5704 }, { 210,-5704 }, { 211,-5704 }, { 212,-5704 },
- { 213,-5704 }, { 214,-5704 }, { 215,-5704 }, { 216,-5704 }, { 217,-5704 },
- { 218,-5704 }, { 219,-5704 }, { 220,-5704 }, { 221,-5704 }, { 222,-5704 },
-
- { 223,-5704 }, { 224,-5704 }, { 225,-5704 }, { 226,-5704 }, { 227,-5704 },
- { 228,-5704 }, { 229,-5704 }, { 230,-5704 }, { 231,-5704 }, { 232,-5704 },
- { 233,-5704 }, { 234,-5704 }, { 235,-5704 }, { 236,-5704 }, { 237,-5704 },
- { 238,-5704 }, { 239,-5704 }, { 240,-5704 }, { 241,-5704 }, { 242,-5704 },
- { 243,-5704 }, { 244,-5704 }, { 245,-5704 }, { 246,-5704 }, { 247,-5704 },
- { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
- { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
- {   0,8736 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
- {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
- {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
-
- {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
- {  20,-5962 }, {  21,-5962 }, {  22,-5962 }, {  23,-5962 }, {  24,-5962 },
- {  25,-5962 }, {  26,-5962 }, {  27,-5962 }, {  28,-5962 }, {  29,-5962 },
- {  30,-5962 }, {  31,-5962 }, {  32,-5987 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-5987 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-5962 }, {  46,-5987 }, {  47,-5987 }, {  48,-5962 }, {  49,-5962 },
- {  50,-5962 }, {  51,-5962 }, {  52,-5962 }, {  53,-5962 }, {  54,-5962 },
- {  55,-5962 }, {  56,-5962 }, {  57,-5962 }, {  58,-5962 }, {   0,   0 },
- {   0,   0 }, {  61,-5987 }, {   0,   0 }, {  63,-5962 }, {   0,   0 },
-
- {  65,-5962 }, {  66,-5962 }, {  67,-5962 }, {  68,-5962 }, {  69,-5962 },
- {  70,-5962 }, {  71,-5962 }, {  72,-5962 }, {  73,-5962 }, {  74,-5962 },
- {  75,-5962 }, {  76,-5962 }, {  77,-5962 }, {  78,-5962 }, {  79,-5962 },
- {  80,-5962 }, {  81,-5962 }, {  82,-5962 }, {  83,-5962 }, {  84,-5962 },
- {  85,-5962 }, {  86,-5962 }, {  87,-5962 }, {  88,-5962 }, {  89,-5962 },
- {  90,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-5962 }, {   0,   0 }, {  97,-5962 }, {  98,-5962 }, {  99,-5962 },
- { 100,-5962 }, { 101,-5962 }, { 102,-5962 }, { 103,-5962 }, { 104,-5962 },
- { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,2124 }, { 109,-5962 },
- { 110,-5962 }, { 111,-5962 }, { 112,-5962 }, { 113,-5962 }, { 114,-5962 },
-
- { 115,-5962 }, { 116,-5962 }, { 117,-5962 }, { 118,-5962 }, { 119,-5962 },
- { 120,-5962 }, { 121,-5962 }, { 122,-5962 }, {   0,   0 }, { 124,-5987 },
- { 125,-5987 }, { 126,-5987 }, { 127,-5962 }, { 128,-5962 }, { 129,-5962 },
- { 130,-5962 }, { 131,-5962 }, { 132,-5962 }, { 133,-5962 }, { 134,-5962 },
- { 135,-5962 }, { 136,-5962 }, { 137,-5962 }, { 138,-5962 }, { 139,-5962 },
- { 140,-5962 }, { 141,-5962 }, { 142,-5962 }, { 143,-5962 }, { 144,-5962 },
- { 145,-5962 }, { 146,-5962 }, { 147,-5962 }, { 148,-5962 }, { 149,-5962 },
- { 150,-5962 }, { 151,-5962 }, { 152,-5962 }, { 153,-5962 }, { 154,-5962 },
- { 155,-5962 }, { 156,-5962 }, { 157,-5962 }, { 158,-5962 }, { 159,-5962 },
- { 160,-5962 }, { 161,-5962 }, { 162,-5962 }, { 163,-5962 }, { 164,-5962 },
-
- { 165,-5962 }, { 166,-5962 }, { 167,-5962 }, { 168,-5962 }, { 169,-5962 },
- { 170,-5962 }, { 171,-5962 }, { 172,-5962 }, { 173,-5962 }, { 174,-5962 },
- { 175,-5962 }, { 176,-5962 }, { 177,-5962 }, { 178,-5962 }, { 179,-5962 },
- { 180,-5962 }, { 181,-5962 }, { 182,-5962 }, { 183,-5962 }, { 184,-5962 },
- { 185,-5962 }, { 186,-5962 }, { 187,-5962 }, { 188,-5962 }, { 189,-5962 },
- { 190,-5962 }, { 191,-5962 }, { 192,-5962 }, { 193,-5962 }, { 194,-5962 },
- { 195,-5962 }, { 196,-5962 }, { 197,-5962 }, { 198,-5962 }, { 199,-5962 },
- { 200,-5962 }, { 201,-5962 }, { 202,-5962 }, { 203,-5962 }, { 204,-5962 },
- { 205,-5962 }, { 206,-5962 }, { 207,-5962 }, { 208,-5962 }, { 209,-5962 },
- { 210,-5962 }, { 211,-5962 }, { 212,-5962 }, { 213,-5962 }, { 214,-5962 },
-
- { 215,-5962 }, { 216,-5962 }, { 217,-5962 }, { 218,-5962 }, { 219,-5962 },
- { 220,-5962 }, { 221,-5962 }, { 222,-5962 }, { 223,-5962 }, { 224,-5962 },
- { 225,-5962 }, { 226,-5962 }, { 227,-5962 }, { 228,-5962 }, { 229,-5962 },
- { 230,-5962 }, { 231,-5962 }, { 232,-5962 }, { 233,-5962 }, { 234,-5962 },
- { 235,-5962 }, { 236,-5962 }, { 237,-5962 }, { 238,-5962 }, { 239,-5962 },
- { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
- { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
- { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
- { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,8478 }, {   1,-6220 },
- {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
-
- {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
- {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
- {  17,-6220 }, {  18,-6220 }, {  19,-6220 }, {  20,-6220 }, {  21,-6220 },
- {  22,-6220 }, {  23,-6220 }, {  24,-6220 }, {  25,-6220 }, {  26,-6220 },
- {  27,-6220 }, {  28,-6220 }, {  29,-6220 }, {  30,-6220 }, {  31,-6220 },
- {  32,-6245 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6220 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6245 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6220 }, {  46,-6245 },
- {  47,-6245 }, {  48,-6220 }, {  49,-6220 }, {  50,-6220 }, {  51,-6220 },
- {  52,-6220 }, {  53,-6220 }, {  54,-6220 }, {  55,-6220 }, {  56,-6220 },
-
- {  57,-6220 }, {  58,-6220 }, {   0,   0 }, {   0,   0 }, {  61,-6245 },
- {   0,   0 }, {  63,-6220 }, {   0,   0 }, {  65,-6220 }, {  66,-6220 },
- {  67,-6220 }, {  68,-6220 }, {  69,-6220 }, {  70,-6220 }, {  71,-6220 },
- {  72,-6220 }, {  73,-6220 }, {  74,-6220 }, {  75,-6220 }, {  76,-6220 },
- {  77,-6220 }, {  78,-6220 }, {  79,-6220 }, {  80,-6220 }, {  81,-6220 },
- {  82,-6220 }, {  83,-6220 }, {  84,-6220 }, {  85,-6220 }, {  86,-6220 },
- {  87,-6220 }, {  88,-6220 }, {  89,-6220 }, {  90,-6220 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6220 }, {   0,   0 },
- {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,2124 },
- { 102,-6220 }, { 103,-6220 }, { 104,-6220 }, { 105,-6220 }, { 106,-6220 },
-
- { 107,-6220 }, { 108,-6220 }, { 109,-6220 }, { 110,-6220 }, { 111,-6220 },
- { 112,-6220 }, { 113,-6220 }, { 114,-6220 }, { 115,-6220 }, { 116,-6220 },
- { 117,-6220 }, { 118,-6220 }, { 119,-6220 }, { 120,-6220 }, { 121,-6220 },
- { 122,-6220 }, {   0,   0 }, { 124,-6245 }, { 125,-6245 }, { 126,-6245 },
- { 127,-6220 }, { 128,-6220 }, { 129,-6220 }, { 130,-6220 }, { 131,-6220 },
- { 132,-6220 }, { 133,-6220 }, { 134,-6220 }, { 135,-6220 }, { 136,-6220 },
- { 137,-6220 }, { 138,-6220 }, { 139,-6220 }, { 140,-6220 }, { 141,-6220 },
- { 142,-6220 }, { 143,-6220 }, { 144,-6220 }, { 145,-6220 }, { 146,-6220 },
- { 147,-6220 }, { 148,-6220 }, { 149,-6220 }, { 150,-6220 }, { 151,-6220 },
- { 152,-6220 }, { 153,-6220 }, { 154,-6220 }, { 155,-6220 }, { 156,-6220 },
-
- { 157,-6220 }, { 158,-6220 }, { 159,-6220 }, { 160,-6220 }, { 161,-6220 },
- { 162,-6220 }, { 163,-6220 }, { 164,-6220 }, { 165,-6220 }, { 166,-6220 },
- { 167,-6220 }, { 168,-6220 }, { 169,-6220 }, { 170,-6220 }, { 171,-6220 },
- { 172,-6220 }, { 173,-6220 }, { 174,-6220 }, { 175,-6220 }, { 176,-6220 },
- { 177,-6220 }, { 178,-6220 }, { 179,-6220 }, { 180,-6220 }, { 181,-6220 },
- { 182,-6220 }, { 183,-6220 }, { 184,-6220 }, { 185,-6220 }, { 186,-6220 },
- { 187,-6220 }, { 188,-6220 }, { 189,-6220 }, { 190,-6220 }, { 191,-6220 },
- { 192,-6220 }, { 193,-6220 }, { 194,-6220 }, { 195,-6220 }, { 196,-6220 },
- { 197,-6220 }, { 198,-6220 }, { 199,-6220 }, { 200,-6220 }, { 201,-6220 },
- { 202,-6220 }, { 203,-6220 }, { 204,-6220 }, { 205,-6220 }, { 206,-6220 },
-
- { 207,-6220 }, { 208,-6220 }, { 209,-6220 }, { 210,-6220 }, { 211,-6220 },
- { 212,-6220 }, { 213,-6220 }, { 214,-6220 }, { 215,-6220 }, { 216,-6220 },
- { 217,-6220 }, { 218,-6220 }, { 219,-6220 }, { 220,-6220 }, { 221,-6220 },
- { 222,-6220 }, { 223,-6220 }, { 224,-6220 }, { 225,-6220 }, { 226,-6220 },
- { 227,-6220 }, { 228,-6220 }, { 229,-6220 }, { 230,-6220 }, { 231,-6220 },
- { 232,-6220 }, { 233,-6220 }, { 234,-6220 }, { 235,-6220 }, { 236,-6220 },
- { 237,-6220 }, { 238,-6220 }, { 239,-6220 }, { 240,-6220 }, { 241,-6220 },
- { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
- { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
- { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
-
- {   0,   0 }, {   0,8220 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
- {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
- {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
- {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
- {  19,-6478 }, {  20,-6478 }, {  21,-6478 }, {  22,-6478 }, {  23,-6478 },
- {  24,-6478 }, {  25,-6478 }, {  26,-6478 }, {  27,-6478 }, {  28,-6478 },
- {  29,-6478 }, {  30,-6478 }, {  31,-6478 }, {  32,-6503 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-6478 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6503 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6478 }, {  46,-6503 }, {  47,-6503 }, {  48,-6478 },
-
- {  49,-6478 }, {  50,-6478 }, {  51,-6478 }, {  52,-6478 }, {  53,-6478 },
- {  54,-6478 }, {  55,-6478 }, {  56,-6478 }, {  57,-6478 }, {  58,-6478 },
- {   0,   0 }, {   0,   0 }, {  61,-6503 }, {   0,   0 }, {  63,-6478 },
- {   0,   0 }, {  65,-6478 }, {  66,-6478 }, {  67,-6478 }, {  68,-6478 },
- {  69,-6478 }, {  70,-6478 }, {  71,-6478 }, {  72,-6478 }, {  73,-6478 },
- {  74,-6478 }, {  75,-6478 }, {  76,-6478 }, {  77,-6478 }, {  78,-6478 },
- {  79,-6478 }, {  80,-6478 }, {  81,-6478 }, {  82,-6478 }, {  83,-6478 },
- {  84,-6478 }, {  85,-6478 }, {  86,-6478 }, {  87,-6478 }, {  88,-6478 },
- {  89,-6478 }, {  90,-6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6478 }, {   0,   0 }, {  97,-6478 }, {  98,-6478 },
-
- {  99,-6478 }, { 100,-6478 }, { 101,2124 }, { 102,-6478 }, { 103,-6478 },
- { 104,-6478 }, { 105,-6478 }, { 106,-6478 }, { 107,-6478 }, { 108,-6478 },
- { 109,-6478 }, { 110,-6478 }, { 111,-6478 }, { 112,-6478 }, { 113,-6478 },
- { 114,-6478 }, { 115,-6478 }, { 116,-6478 }, { 117,-6478 }, { 118,-6478 },
- { 119,-6478 }, { 120,-6478 }, { 121,-6478 }, { 122,-6478 }, {   0,   0 },
- { 124,-6503 }, { 125,-6503 }, { 126,-6503 }, { 127,-6478 }, { 128,-6478 },
- { 129,-6478 }, { 130,-6478 }, { 131,-6478 }, { 132,-6478 }, { 133,-6478 },
- { 134,-6478 }, { 135,-6478 }, { 136,-6478 }, { 137,-6478 }, { 138,-6478 },
- { 139,-6478 }, { 140,-6478 }, { 141,-6478 }, { 142,-6478 }, { 143,-6478 },
- { 144,-6478 }, { 145,-6478 }, { 146,-6478 }, { 147,-6478 }, { 148,-6478 },
-
- { 149,-6478 }, { 150,-6478 }, { 151,-6478 }, { 152,-6478 }, { 153,-6478 },
- { 154,-6478 }, { 155,-6478 }, { 156,-6478 }, { 157,-6478 }, { 158,-6478 },
- { 159,-6478 }, { 160,-6478 }, { 161,-6478 }, { 162,-6478 }, { 163,-6478 },
- { 164,-6478 }, { 165,-6478 }, { 166,-6478 }, { 167,-6478 }, { 168,-6478 },
- { 169,-6478 }, { 170,-6478 }, { 171,-6478 }, { 172,-6478 }, { 173,-6478 },
- { 174,-6478 }, { 175,-6478 }, { 176,-6478 }, { 177,-6478 }, { 178,-6478 },
- { 179,-6478 }, { 180,-6478 }, { 181,-6478 }, { 182,-6478 }, { 183,-6478 },
- { 184,-6478 }, { 185,-6478 }, { 186,-6478 }, { 187,-6478 }, { 188,-6478 },
- { 189,-6478 }, { 190,-6478 }, { 191,-6478 }, { 192,-6478 }, { 193,-6478 },
- { 194,-6478 }, { 195,-6478 }, { 196,-6478 }, { 197,-6478 }, { 198,-6478 },
-
- { 199,-6478 }, { 200,-6478 }, { 201,-6478 }, { 202,-6478 }, { 203,-6478 },
- { 204,-6478 }, { 205,-6478 }, { 206,-6478 }, { 207,-6478 }, { 208,-6478 },
- { 209,-6478 }, { 210,-6478 }, { 211,-6478 }, { 212,-6478 }, { 213,-6478 },
- { 214,-6478 }, { 215,-6478 }, { 216,-6478 }, { 217,-6478 }, { 218,-6478 },
- { 219,-6478 }, { 220,-6478 }, { 221,-6478 }, { 222,-6478 }, { 223,-6478 },
- { 224,-6478 }, { 225,-6478 }, { 226,-6478 }, { 227,-6478 }, { 228,-6478 },
- { 229,-6478 }, { 230,-6478 }, { 231,-6478 }, { 232,-6478 }, { 233,-6478 },
- { 234,-6478 }, { 235,-6478 }, { 236,-6478 }, { 237,-6478 }, { 238,-6478 },
- { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
- { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
-
- { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
- { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,7962 },
- {   0,  25 }, {   0,7960 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,7956 }, {   0,  31 }, {   0,7954 }, {   9,   0 }, {  10,   0 },
- {   9,2122 }, {  10,2122 }, {  13,   0 }, {   0,   0 }, {  13,2122 },
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,   0 },
- {  13,  -8 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,2122 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,  -8 },
-
- {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,   0 }, {   0,   0 },
- {  38,-2376 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-2374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-2372 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,-2267 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 483 }, { 126,1056 }, { 123,2762 }, {   0,   0 },
- { 123,1065 }, {   0,   0 }, {   0,7829 }, {   1,2119 }, {   2,2119 },
- {   3,2119 }, {   4,2119 }, {   5,2119 }, {   6,2119 }, {   7,2119 },
-
- {   8,2119 }, {   9,2119 }, {  10,2119 }, {  11,2119 }, {  12,2119 },
- {  13,2119 }, {  14,2119 }, {  15,2119 }, {  16,2119 }, {  17,2119 },
- {  18,2119 }, {  19,2119 }, {  20,2119 }, {  21,2119 }, {  22,2119 },
- {  23,2119 }, {  24,2119 }, {  25,2119 }, {  26,2119 }, {  27,2119 },
- {  28,2119 }, {  29,2119 }, {  30,2119 }, {  31,2119 }, {  32,2119 },
- {  33,2119 }, {  34,2119 }, {  35,2119 }, {  36,2119 }, {  37,2119 },
- {  38,2119 }, {  39,2119 }, {  40,2119 }, {  41,2119 }, {  42,2119 },
- {  43,2119 }, {  44,2119 }, {  45,2377 }, {  46,2119 }, {  47,2119 },
- {  48,2119 }, {  49,2119 }, {  50,2119 }, {  51,2119 }, {  52,2119 },
- {  53,2119 }, {  54,2119 }, {  55,2119 }, {  56,2119 }, {  57,2119 },
-
- {  58,2119 }, {  59,2119 }, {  60,2119 }, {  61,2119 }, {  62,2119 },
- {  63,2119 }, {  64,2119 }, {  65,2119 }, {  66,2119 }, {  67,2119 },
- {  68,2119 }, {  69,2119 }, {  70,2119 }, {  71,2119 }, {  72,2119 },
- {  73,2119 }, {  74,2119 }, {  75,2119 }, {  76,2119 }, {  77,2119 },
- {  78,2119 }, {  79,2119 }, {  80,2119 }, {  81,2119 }, {  82,2119 },
- {  83,2119 }, {  84,2119 }, {  85,2119 }, {  86,2119 }, {  87,2119 },
- {  88,2119 }, {  89,2119 }, {  90,2119 }, {  91,2119 }, {  92,2119 },
- {  93,2119 }, {  94,2119 }, {  95,2119 }, {  96,2119 }, {  97,2119 },
- {  98,2119 }, {  99,2119 }, { 100,2119 }, { 101,2119 }, { 102,2119 },
- { 103,2119 }, { 104,2119 }, { 105,2119 }, { 106,2119 }, { 107,2119 },
-
- { 108,2119 }, { 109,2119 }, { 110,2119 }, { 111,2119 }, { 112,2119 },
- { 113,2119 }, { 114,2119 }, { 115,2119 }, { 116,2119 }, { 117,2119 },
- { 118,2119 }, { 119,2119 }, { 120,2119 }, { 121,2119 }, { 122,2119 },
- { 123,2119 }, { 124,2119 }, { 125,2119 }, { 126,2119 }, { 127,2119 },
- { 128,2119 }, { 129,2119 }, { 130,2119 }, { 131,2119 }, { 132,2119 },
- { 133,2119 }, { 134,2119 }, { 135,2119 }, { 136,2119 }, { 137,2119 },
- { 138,2119 }, { 139,2119 }, { 140,2119 }, { 141,2119 }, { 142,2119 },
- { 143,2119 }, { 144,2119 }, { 145,2119 }, { 146,2119 }, { 147,2119 },
- { 148,2119 }, { 149,2119 }, { 150,2119 }, { 151,2119 }, { 152,2119 },
- { 153,2119 }, { 154,2119 }, { 155,2119 }, { 156,2119 }, { 157,2119 },
-
- { 158,2119 }, { 159,2119 }, { 160,2119 }, { 161,2119 }, { 162,2119 },
- { 163,2119 }, { 164,2119 }, { 165,2119 }, { 166,2119 }, { 167,2119 },
- { 168,2119 }, { 169,2119 }, { 170,2119 }, { 171,2119 }, { 172,2119 },
- { 173,2119 }, { 174,2119 }, { 175,2119 }, { 176,2119 }, { 177,2119 },
- { 178,2119 }, { 179,2119 }, { 180,2119 }, { 181,2119 }, { 182,2119 },
- { 183,2119 }, { 184,2119 }, { 185,2119 }, { 186,2119 }, { 187,2119 },
- { 188,2119 }, { 189,2119 }, { 190,2119 }, { 191,2119 }, { 192,2119 },
- { 193,2119 }, { 194,2119 }, { 195,2119 }, { 196,2119 }, { 197,2119 },
- { 198,2119 }, { 199,2119 }, { 200,2119 }, { 201,2119 }, { 202,2119 },
- { 203,2119 }, { 204,2119 }, { 205,2119 }, { 206,2119 }, { 207,2119 },
-
- { 208,2119 }, { 209,2119 }, { 210,2119 }, { 211,2119 }, { 212,2119 },
- { 213,2119 }, { 214,2119 }, { 215,2119 }, { 216,2119 }, { 217,2119 },
- { 218,2119 }, { 219,2119 }, { 220,2119 }, { 221,2119 }, { 222,2119 },
- { 223,2119 }, { 224,2119 }, { 225,2119 }, { 226,2119 }, { 227,2119 },
- { 228,2119 }, { 229,2119 }, { 230,2119 }, { 231,2119 }, { 232,2119 },
- { 233,2119 }, { 234,2119 }, { 235,2119 }, { 236,2119 }, { 237,2119 },
- { 238,2119 }, { 239,2119 }, { 240,2119 }, { 241,2119 }, { 242,2119 },
- { 243,2119 }, { 244,2119 }, { 245,2119 }, { 246,2119 }, { 247,2119 },
- { 248,2119 }, { 249,2119 }, { 250,2119 }, { 251,2119 }, { 252,2119 },
- { 253,2119 }, { 254,2119 }, { 255,2119 }, { 256,2119 }, {   0,   0 },
-
- {   0,7571 }, {   0,   1 }, {   0,7569 }, {   0,   4 }, {   0,7567 },
- {   0,  48 }, {   0,7565 }, {   0,  42 }, {   0,7563 }, {   0,   0 },
- {   0,7561 }, {   0,  21 }, {   0,7559 }, {   0,   0 }, {  10,   0 },
- {   0,  20 }, {   0,7555 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2633 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,7477 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2635 }, {   0,   0 },
- { 123,2635 }, {   0,   4 }, {   0,7444 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
- {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
-
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
-
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2551 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
-
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
-
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
-
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,7187 },
- {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
- {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 },
- {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 },
-
- {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
- {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
- {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
- {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
- {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
- {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
- {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
- {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
- {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
- {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
-
- {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
- {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
- {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
- {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
- {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
- {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
- {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
- { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
- { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
- { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
-
- { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
- { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
- { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
- { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
- { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
- { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
- { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
- { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
- { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
- { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
-
- { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
- { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
- { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
- { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
- { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
- { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
- { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
- { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
- { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
- { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
-
- { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
- { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
- { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
- { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
- { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
- { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
- { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
- { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
- {   0,   0 }, {   0,6930 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,6904 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6893 }, {   0,  17 },
- {   0,6891 }, {   0,  27 }, {   0,6889 }, {   0,  18 }, {   0,6887 },
- {   0,  37 }, {   0,6885 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,6870 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
- {   4,-7828 }, {   5,-7828 }, {   6,-7828 }, {   7,-7828 }, {   8,-7828 },
- {   9,-7853 }, {  10,-7853 }, {  11,-7828 }, {  12,-7828 }, {  13,-7853 },
- {  14,-7828 }, {  15,-7828 }, {  16,-7828 }, {  17,-7828 }, {  18,-7828 },
- {  19,-7828 }, {  20,-7828 }, {  21,-7828 }, {  22,-7828 }, {  23,-7828 },
- {  24,-7828 }, {  25,-7828 }, {  26,-7828 }, {  27,-7828 }, {  28,-7828 },
- {  29,-7828 }, {  30,-7828 }, {  31,-7828 }, {  32,-7853 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-7828 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-7853 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-7828 }, {  46,-7853 }, {  47,-7853 }, {  48,-7828 },
-
- {  49,-7828 }, {  50,-7828 }, {  51,-7828 }, {  52,-7828 }, {  53,-7828 },
- {  54,-7828 }, {  55,-7828 }, {  56,-7828 }, {  57,-7828 }, {  58,-7828 },
- {   0,   0 }, {   0,   0 }, {  61,-7853 }, {   0,   0 }, {  63,-7828 },
- { 124,-633 }, {  65,-7828 }, {  66,-7828 }, {  67,-7828 }, {  68,-7828 },
- {  69,-7828 }, {  70,-7828 }, {  71,-7828 }, {  72,-7828 }, {  73,-7828 },
- {  74,-7828 }, {  75,-7828 }, {  76,-7828 }, {  77,-7828 }, {  78,-7828 },
- {  79,-7828 }, {  80,-7828 }, {  81,-7828 }, {  82,-7828 }, {  83,-7828 },
- {  84,-7828 }, {  85,-7828 }, {  86,-7828 }, {  87,-7828 }, {  88,-7828 },
- {  89,-7828 }, {  90,-7828 }, { 125,-573 }, { 115,1974 }, {   0,   0 },
- {   0,   0 }, {  95,-7828 }, {   0,   0 }, {  97,-7828 }, {  98,-7828 },
-
- {  99,-7828 }, { 100,-7828 }, { 101,1961 }, { 102,-7828 }, { 103,-7828 },
- { 104,-7828 }, { 105,-7828 }, { 106,-7828 }, { 107,-7828 }, { 108,-7828 },
- { 109,-7828 }, { 110,-7828 }, { 111,-7828 }, { 112,-7828 }, { 113,-7828 },
- { 114,-7828 }, { 115,-7828 }, { 116,-7828 }, { 117,-7828 }, { 118,-7828 },
- { 119,-7828 }, { 120,-7828 }, { 121,-7828 }, { 122,-7828 }, {   0,   0 },
- { 124,-7853 }, { 125,-7853 }, { 126,-7853 }, { 127,-7828 }, { 128,-7828 },
- { 129,-7828 }, { 130,-7828 }, { 131,-7828 }, { 132,-7828 }, { 133,-7828 },
- { 134,-7828 }, { 135,-7828 }, { 136,-7828 }, { 137,-7828 }, { 138,-7828 },
- { 139,-7828 }, { 140,-7828 }, { 141,-7828 }, { 142,-7828 }, { 143,-7828 },
- { 144,-7828 }, { 145,-7828 }, { 146,-7828 }, { 147,-7828 }, { 148,-7828 },
-
- { 149,-7828 }, { 150,-7828 }, { 151,-7828 }, { 152,-7828 }, { 153,-7828 },
- { 154,-7828 }, { 155,-7828 }, { 156,-7828 }, { 157,-7828 }, { 158,-7828 },
- { 159,-7828 }, { 160,-7828 }, { 161,-7828 }, { 162,-7828 }, { 163,-7828 },
- { 164,-7828 }, { 165,-7828 }, { 166,-7828 }, { 167,-7828 }, { 168,-7828 },
- { 169,-7828 }, { 170,-7828 }, { 171,-7828 }, { 172,-7828 }, { 173,-7828 },
- { 174,-7828 }, { 175,-7828 }, { 176,-7828 }, { 177,-7828 }, { 178,-7828 },
- { 179,-7828 }, { 180,-7828 }, { 181,-7828 }, { 182,-7828 }, { 183,-7828 },
- { 184,-7828 }, { 185,-7828 }, { 186,-7828 }, { 187,-7828 }, { 188,-7828 },
- { 189,-7828 }, { 190,-7828 }, { 191,-7828 }, { 192,-7828 }, { 193,-7828 },
- { 194,-7828 }, { 195,-7828 }, { 196,-7828 }, { 197,-7828 }, { 198,-7828 },
-
- { 199,-7828 }, { 200,-7828 }, { 201,-7828 }, { 202,-7828 }, { 203,-7828 },
- { 204,-7828 }, { 205,-7828 }, { 206,-7828 }, { 207,-7828 }, { 208,-7828 },
- { 209,-7828 }, { 210,-7828 }, { 211,-7828 }, { 212,-7828 }, { 213,-7828 },
- { 214,-7828 }, { 215,-7828 }, { 216,-7828 }, { 217,-7828 }, { 218,-7828 },
- { 219,-7828 }, { 220,-7828 }, { 221,-7828 }, { 222,-7828 }, { 223,-7828 },
- { 224,-7828 }, { 225,-7828 }, { 226,-7828 }, { 227,-7828 }, { 228,-7828 },
- { 229,-7828 }, { 230,-7828 }, { 231,-7828 }, { 232,-7828 }, { 233,-7828 },
- { 234,-7828 }, { 235,-7828 }, { 236,-7828 }, { 237,-7828 }, { 238,-7828 },
- { 239,-7828 }, { 240,-7828 }, { 241,-7828 }, { 242,-7828 }, { 243,-7828 },
- { 244,-7828 }, { 245,-7828 }, { 246,-7828 }, { 247,-7828 }, { 248,-7828 },
-
- { 249,-7828 }, { 250,-7828 }, { 251,-7828 }, { 252,-7828 }, { 253,-7828 },
- { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,6612 },
- {   1,-8086 }, {   2,-8086 }, {   3,-8086 }, {   4,-8086 }, {   5,-8086 },
- {   6,-8086 }, {   7,-8086 }, {   8,-8086 }, {   9,1680 }, {  10,1680 },
- {  11,-8086 }, {  12,-8086 }, {  13,1680 }, {  14,-8086 }, {  15,-8086 },
- {  16,-8086 }, {  17,-8086 }, {  18,-8086 }, {  19,-8086 }, {  20,-8086 },
- {  21,-8086 }, {  22,-8086 }, {  23,-8086 }, {  24,-8086 }, {  25,-8086 },
- {  26,-8086 }, {  27,-8086 }, {  28,-8086 }, {  29,-8086 }, {  30,-8086 },
- {  31,-8086 }, {  32,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-8086 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  41,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8086 },
- {  46,-8111 }, {  47,-8111 }, {  48,-8086 }, {  49,-8086 }, {  50,-8086 },
- {  51,-8086 }, {  52,-8086 }, {  53,-8086 }, {  54,-8086 }, {  55,-8086 },
- {  56,-8086 }, {  57,-8086 }, {  58,-8086 }, {   0,   0 }, {   0,   0 },
- {  61,-8111 }, {   0,   0 }, {  63,-8086 }, {   0,   0 }, {  65,-8086 },
- {  66,-8086 }, {  67,-8086 }, {  68,-8086 }, {  69,-8086 }, {  70,-8086 },
- {  71,-8086 }, {  72,-8086 }, {  73,-8086 }, {  74,-8086 }, {  75,-8086 },
- {  76,-8086 }, {  77,-8086 }, {  78,-8086 }, {  79,-8086 }, {  80,-8086 },
- {  81,-8086 }, {  82,-8086 }, {  83,-8086 }, {  84,-8086 }, {  85,-8086 },
- {  86,-8086 }, {  87,-8086 }, {  88,-8086 }, {  89,-8086 }, {  90,-8086 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8086 },
- {   0,   0 }, {  97,-8086 }, {  98,-8086 }, {  99,-8086 }, { 100,-8086 },
- { 101,-8086 }, { 102,-8086 }, { 103,-8086 }, { 104,-8086 }, { 105,-8086 },
- { 106,-8086 }, { 107,-8086 }, { 108,-8086 }, { 109,-8086 }, { 110,-8086 },
- { 111,-8086 }, { 112,-8086 }, { 113,-8086 }, { 114,-8086 }, { 115,-8086 },
- { 116,-8086 }, { 117,-8086 }, { 118,-8086 }, { 119,-8086 }, { 120,-8086 },
- { 121,-8086 }, { 122,-8086 }, {   0,   0 }, { 124,-8111 }, { 125,1680 },
- { 126,1680 }, { 127,-8086 }, { 128,-8086 }, { 129,-8086 }, { 130,-8086 },
- { 131,-8086 }, { 132,-8086 }, { 133,-8086 }, { 134,-8086 }, { 135,-8086 },
- { 136,-8086 }, { 137,-8086 }, { 138,-8086 }, { 139,-8086 }, { 140,-8086 },
-
- { 141,-8086 }, { 142,-8086 }, { 143,-8086 }, { 144,-8086 }, { 145,-8086 },
- { 146,-8086 }, { 147,-8086 }, { 148,-8086 }, { 149,-8086 }, { 150,-8086 },
- { 151,-8086 }, { 152,-8086 }, { 153,-8086 }, { 154,-8086 }, { 155,-8086 },
- { 156,-8086 }, { 157,-8086 }, { 158,-8086 }, { 159,-8086 }, { 160,-8086 },
- { 161,-8086 }, { 162,-8086 }, { 163,-8086 }, { 164,-8086 }, { 165,-8086 },
- { 166,-8086 }, { 167,-8086 }, { 168,-8086 }, { 169,-8086 }, { 170,-8086 },
- { 171,-8086 }, { 172,-8086 }, { 173,-8086 }, { 174,-8086 }, { 175,-8086 },
- { 176,-8086 }, { 177,-8086 }, { 178,-8086 }, { 179,-8086 }, { 180,-8086 },
- { 181,-8086 }, { 182,-8086 }, { 183,-8086 }, { 184,-8086 }, { 185,-8086 },
- { 186,-8086 }, { 187,-8086 }, { 188,-8086 }, { 189,-8086 }, { 190,-8086 },
-
- { 191,-8086 }, { 192,-8086 }, { 193,-8086 }, { 194,-8086 }, { 195,-8086 },
- { 196,-8086 }, { 197,-8086 }, { 198,-8086 }, { 199,-8086 }, { 200,-8086 },
- { 201,-8086 }, { 202,-8086 }, { 203,-8086 }, { 204,-8086 }, { 205,-8086 },
- { 206,-8086 }, { 207,-8086 }, { 208,-8086 }, { 209,-8086 }, { 210,-8086 },
- { 211,-8086 }, { 212,-8086 }, { 213,-8086 }, { 214,-8086 }, { 215,-8086 },
- { 216,-8086 }, { 217,-8086 }, { 218,-8086 }, { 219,-8086 }, { 220,-8086 },
- { 221,-8086 }, { 222,-8086 }, { 223,-8086 }, { 224,-8086 }, { 225,-8086 },
- { 226,-8086 }, { 227,-8086 }, { 228,-8086 }, { 229,-8086 }, { 230,-8086 },
- { 231,-8086 }, { 232,-8086 }, { 233,-8086 }, { 234,-8086 }, { 235,-8086 },
- { 236,-8086 }, { 237,-8086 }, { 238,-8086 }, { 239,-8086 }, { 240,-8086 },
-
- { 241,-8086 }, { 242,-8086 }, { 243,-8086 }, { 244,-8086 }, { 245,-8086 },
- { 246,-8086 }, { 247,-8086 }, { 248,-8086 }, { 249,-8086 }, { 250,-8086 },
- { 251,-8086 }, { 252,-8086 }, { 253,-8086 }, { 254,-8086 }, { 255,-8086 },
- { 256,-8086 }, {   0,   0 }, {   0,6354 }, {   1,-8344 }, {   2,-8344 },
- {   3,-8344 }, {   4,-8344 }, {   5,-8344 }, {   6,-8344 }, {   7,-8344 },
- {   8,-8344 }, {   9,1424 }, {  10,1424 }, {  11,-8344 }, {  12,-8344 },
- {  13,1424 }, {  14,-8344 }, {  15,-8344 }, {  16,-8344 }, {  17,-8344 },
- {  18,-8344 }, {  19,-8344 }, {  20,-8344 }, {  21,-8344 }, {  22,-8344 },
- {  23,-8344 }, {  24,-8344 }, {  25,-8344 }, {  26,-8344 }, {  27,-8344 },
- {  28,-8344 }, {  29,-8344 }, {  30,-8344 }, {  31,-8344 }, {  32,1424 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8344 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1424 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-8344 }, {  46,-8369 }, {  47,-8369 },
- {  48,-8344 }, {  49,-8344 }, {  50,-8344 }, {  51,-8344 }, {  52,-8344 },
- {  53,-8344 }, {  54,-8344 }, {  55,-8344 }, {  56,-8344 }, {  57,-8344 },
- {  58,-8344 }, {   0,   0 }, {   0,   0 }, {  61,-8369 }, {   0,   0 },
- {  63,-8344 }, {   0,   0 }, {  65,-8344 }, {  66,-8344 }, {  67,-8344 },
- {  68,-8344 }, {  69,-8344 }, {  70,-8344 }, {  71,-8344 }, {  72,-8344 },
- {  73,-8344 }, {  74,-8344 }, {  75,-8344 }, {  76,-8344 }, {  77,-8344 },
- {  78,-8344 }, {  79,-8344 }, {  80,-8344 }, {  81,-8344 }, {  82,-8344 },
-
- {  83,-8344 }, {  84,-8344 }, {  85,-8344 }, {  86,-8344 }, {  87,-8344 },
- {  88,-8344 }, {  89,-8344 }, {  90,-8344 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-8344 }, {   0,   0 }, {  97,-8344 },
- {  98,-8344 }, {  99,-8344 }, { 100,-8344 }, { 101,-8344 }, { 102,-8344 },
- { 103,-8344 }, { 104,-8344 }, { 105,-8344 }, { 106,-8344 }, { 107,-8344 },
- { 108,-8344 }, { 109,-8344 }, { 110,-8344 }, { 111,-8344 }, { 112,-8344 },
- { 113,-8344 }, { 114,-8344 }, { 115,-8344 }, { 116,-8344 }, { 117,-8344 },
- { 118,-8344 }, { 119,-8344 }, { 120,-8344 }, { 121,-8344 }, { 122,-8344 },
- {   0,   0 }, { 124,-8369 }, { 125,1424 }, { 126,1424 }, { 127,-8344 },
- { 128,-8344 }, { 129,-8344 }, { 130,-8344 }, { 131,-8344 }, { 132,-8344 },
-
- { 133,-8344 }, { 134,-8344 }, { 135,-8344 }, { 136,-8344 }, { 137,-8344 },
- { 138,-8344 }, { 139,-8344 }, { 140,-8344 }, { 141,-8344 }, { 142,-8344 },
- { 143,-8344 }, { 144,-8344 }, { 145,-8344 }, { 146,-8344 }, { 147,-8344 },
- { 148,-8344 }, { 149,-8344 }, { 150,-8344 }, { 151,-8344 }, { 152,-8344 },
- { 153,-8344 }, { 154,-8344 }, { 155,-8344 }, { 156,-8344 }, { 157,-8344 },
- { 158,-8344 }, { 159,-8344 }, { 160,-8344 }, { 161,-8344 }, { 162,-8344 },
- { 163,-8344 }, { 164,-8344 }, { 165,-8344 }, { 166,-8344 }, { 167,-8344 },
- { 168,-8344 }, { 169,-8344 }, { 170,-8344 }, { 171,-8344 }, { 172,-8344 },
- { 173,-8344 }, { 174,-8344 }, { 175,-8344 }, { 176,-8344 }, { 177,-8344 },
- { 178,-8344 }, { 179,-8344 }, { 180,-8344 }, { 181,-8344 }, { 182,-8344 },
-
- { 183,-8344 }, { 184,-8344 }, { 185,-8344 }, { 186,-8344 }, { 187,-8344 },
- { 188,-8344 }, { 189,-8344 }, { 190,-8344 }, { 191,-8344 }, { 192,-8344 },
- { 193,-8344 }, { 194,-8344 }, { 195,-8344 }, { 196,-8344 }, { 197,-8344 },
- { 198,-8344 }, { 199,-8344 }, { 200,-8344 }, { 201,-8344 }, { 202,-8344 },
- { 203,-8344 }, { 204,-8344 }, { 205,-8344 }, { 206,-8344 }, { 207,-8344 },
- { 208,-8344 }, { 209,-8344 }, { 210,-8344 }, { 211,-8344 }, { 212,-8344 },
- { 213,-8344 }, { 214,-8344 }, { 215,-8344 }, { 216,-8344 }, { 217,-8344 },
- { 218,-8344 }, { 219,-8344 }, { 220,-8344 }, { 221,-8344 }, { 222,-8344 },
- { 223,-8344 }, { 224,-8344 }, { 225,-8344 }, { 226,-8344 }, { 227,-8344 },
- { 228,-8344 }, { 229,-8344 }, { 230,-8344 }, { 231,-8344 }, { 232,-8344 },
-
- { 233,-8344 }, { 234,-8344 }, { 235,-8344 }, { 236,-8344 }, { 237,-8344 },
- { 238,-8344 }, { 239,-8344 }, { 240,-8344 }, { 241,-8344 }, { 242,-8344 },
- { 243,-8344 }, { 244,-8344 }, { 245,-8344 }, { 246,-8344 }, { 247,-8344 },
- { 248,-8344 }, { 249,-8344 }, { 250,-8344 }, { 251,-8344 }, { 252,-8344 },
- { 253,-8344 }, { 254,-8344 }, { 255,-8344 }, { 256,-8344 }, {   0,   0 },
- {   0,6096 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
- {   5,-8602 }, {   6,-8602 }, {   7,-8602 }, {   8,-8602 }, {   9,-8627 },
- {  10,-8627 }, {  11,-8602 }, {  12,-8602 }, {  13,-8627 }, {  14,-8602 },
- {  15,-8602 }, {  16,-8602 }, {  17,-8602 }, {  18,-8602 }, {  19,-8602 },
- {  20,-8602 }, {  21,-8602 }, {  22,-8602 }, {  23,-8602 }, {  24,-8602 },
-
- {  25,-8602 }, {  26,-8602 }, {  27,-8602 }, {  28,-8602 }, {  29,-8602 },
- {  30,-8602 }, {  31,-8602 }, {  32,-8627 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-8627 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8602 }, {  46,-8627 }, {  47,-8627 }, {  48,-8602 }, {  49,-8602 },
- {  50,-8602 }, {  51,-8602 }, {  52,-8602 }, {  53,-8602 }, {  54,-8602 },
- {  55,-8602 }, {  56,-8602 }, {  57,-8602 }, {  58,-8602 }, {   0,   0 },
- {   0,   0 }, {  61,-8627 }, {   0,   0 }, {  63,-8602 }, {   0,   0 },
- {  65,-8602 }, {  66,-8602 }, {  67,-8602 }, {  68,-8602 }, {  69,-8602 },
- {  70,-8602 }, {  71,-8602 }, {  72,-8602 }, {  73,-8602 }, {  74,-8602 },
-
- {  75,-8602 }, {  76,-8602 }, {  77,-8602 }, {  78,-8602 }, {  79,-8602 },
- {  80,-8602 }, {  81,-8602 }, {  82,-8602 }, {  83,-8602 }, {  84,-8602 },
- {  85,-8602 }, {  86,-8602 }, {  87,-8602 }, {  88,-8602 }, {  89,-8602 },
- {  90,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8602 }, {   0,   0 }, {  97,-8602 }, {  98,-8602 }, {  99,-8602 },
- { 100,-8602 }, { 101,-8602 }, { 102,1445 }, { 103,-8602 }, { 104,-8602 },
- { 105,-8602 }, { 106,-8602 }, { 107,-8602 }, { 108,-8602 }, { 109,-8602 },
- { 110,-8602 }, { 111,-8602 }, { 112,-8602 }, { 113,-8602 }, { 114,-8602 },
- { 115,-8602 }, { 116,-8602 }, { 117,-8602 }, { 118,-8602 }, { 119,-8602 },
- { 120,-8602 }, { 121,-8602 }, { 122,-8602 }, {   0,   0 }, { 124,-8627 },
-
- { 125,-8627 }, { 126,-8627 }, { 127,-8602 }, { 128,-8602 }, { 129,-8602 },
- { 130,-8602 }, { 131,-8602 }, { 132,-8602 }, { 133,-8602 }, { 134,-8602 },
- { 135,-8602 }, { 136,-8602 }, { 137,-8602 }, { 138,-8602 }, { 139,-8602 },
- { 140,-8602 }, { 141,-8602 }, { 142,-8602 }, { 143,-8602 }, { 144,-8602 },
- { 145,-8602 }, { 146,-8602 }, { 147,-8602 }, { 148,-8602 }, { 149,-8602 },
- { 150,-8602 }, { 151,-8602 }, { 152,-8602 }, { 153,-8602 }, { 154,-8602 },
- { 155,-8602 }, { 156,-8602 }, { 157,-8602 }, { 158,-8602 }, { 159,-8602 },
- { 160,-8602 }, { 161,-8602 }, { 162,-8602 }, { 163,-8602 }, { 164,-8602 },
- { 165,-8602 }, { 166,-8602 }, { 167,-8602 }, { 168,-8602 }, { 169,-8602 },
- { 170,-8602 }, { 171,-8602 }, { 172,-8602 }, { 173,-8602 }, { 174,-8602 },
-
- { 175,-8602 }, { 176,-8602 }, { 177,-8602 }, { 178,-8602 }, { 179,-8602 },
- { 180,-8602 }, { 181,-8602 }, { 182,-8602 }, { 183,-8602 }, { 184,-8602 },
- { 185,-8602 }, { 186,-8602 }, { 187,-8602 }, { 188,-8602 }, { 189,-8602 },
- { 190,-8602 }, { 191,-8602 }, { 192,-8602 }, { 193,-8602 }, { 194,-8602 },
- { 195,-8602 }, { 196,-8602 }, { 197,-8602 }, { 198,-8602 }, { 199,-8602 },
- { 200,-8602 }, { 201,-8602 }, { 202,-8602 }, { 203,-8602 }, { 204,-8602 },
- { 205,-8602 }, { 206,-8602 }, { 207,-8602 }, { 208,-8602 }, { 209,-8602 },
- { 210,-8602 }, { 211,-8602 }, { 212,-8602 }, { 213,-8602 }, { 214,-8602 },
- { 215,-8602 }, { 216,-8602 }, { 217,-8602 }, { 218,-8602 }, { 219,-8602 },
- { 220,-8602 }, { 221,-8602 }, { 222,-8602 }, { 223,-8602 }, { 224,-8602 },
-
- { 225,-8602 }, { 226,-8602 }, { 227,-8602 }, { 228,-8602 }, { 229,-8602 },
- { 230,-8602 }, { 231,-8602 }, { 232,-8602 }, { 233,-8602 }, { 234,-8602 },
- { 235,-8602 }, { 236,-8602 }, { 237,-8602 }, { 238,-8602 }, { 239,-8602 },
- { 240,-8602 }, { 241,-8602 }, { 242,-8602 }, { 243,-8602 }, { 244,-8602 },
- { 245,-8602 }, { 246,-8602 }, { 247,-8602 }, { 248,-8602 }, { 249,-8602 },
- { 250,-8602 }, { 251,-8602 }, { 252,-8602 }, { 253,-8602 }, { 254,-8602 },
- { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,5838 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
- {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1639 }, { 126,-1066 },
- {   0,   0 }, {   0,5710 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
-
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
-
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
-
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
-
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
-
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,5452 },
- {   1,1059 }, {   2,1059 }, {   3,1059 }, {   4,1059 }, {   5,1059 },
- {   6,1059 }, {   7,1059 }, {   8,1059 }, {   9,1059 }, {  10,1059 },
- {  11,1059 }, {  12,1059 }, {  13,1059 }, {  14,1059 }, {  15,1059 },
- {  16,1059 }, {  17,1059 }, {  18,1059 }, {  19,1059 }, {  20,1059 },
- {  21,1059 }, {  22,1059 }, {  23,1059 }, {  24,1059 }, {  25,1059 },
- {  26,1059 }, {  27,1059 }, {  28,1059 }, {  29,1059 }, {  30,1059 },
-
- {  31,1059 }, {  32,1059 }, {  33,1059 }, {  34,1059 }, {  35,1059 },
- {  36,1059 }, {  37,1059 }, {  38,1059 }, {  39,1059 }, {  40,1059 },
- {  41,1059 }, {  42,1059 }, {  43,1059 }, {  44,1059 }, {  45,1317 },
- {  46,1059 }, {  47,1059 }, {  48,1059 }, {  49,1059 }, {  50,1059 },
- {  51,1059 }, {  52,1059 }, {  53,1059 }, {  54,1059 }, {  55,1059 },
- {  56,1059 }, {  57,1059 }, {  58,1059 }, {  59,1059 }, {  60,1059 },
- {  61,1059 }, {  62,1059 }, {  63,1059 }, {  64,1059 }, {  65,1059 },
- {  66,1059 }, {  67,1059 }, {  68,1059 }, {  69,1059 }, {  70,1059 },
- {  71,1059 }, {  72,1059 }, {  73,1059 }, {  74,1059 }, {  75,1059 },
- {  76,1059 }, {  77,1059 }, {  78,1059 }, {  79,1059 }, {  80,1059 },
-
- {  81,1059 }, {  82,1059 }, {  83,1059 }, {  84,1059 }, {  85,1059 },
- {  86,1059 }, {  87,1059 }, {  88,1059 }, {  89,1059 }, {  90,1059 },
- {  91,1059 }, {  92,1059 }, {  93,1059 }, {  94,1059 }, {  95,1059 },
- {  96,1059 }, {  97,1059 }, {  98,1059 }, {  99,1059 }, { 100,1059 },
- { 101,1059 }, { 102,1059 }, { 103,1059 }, { 104,1059 }, { 105,1059 },
- { 106,1059 }, { 107,1059 }, { 108,1059 }, { 109,1059 }, { 110,1059 },
- { 111,1059 }, { 112,1059 }, { 113,1059 }, { 114,1059 }, { 115,1059 },
- { 116,1059 }, { 117,1059 }, { 118,1059 }, { 119,1059 }, { 120,1059 },
- { 121,1059 }, { 122,1059 }, { 123,1059 }, { 124,1059 }, { 125,1059 },
- { 126,1059 }, { 127,1059 }, { 128,1059 }, { 129,1059 }, { 130,1059 },
-
- { 131,1059 }, { 132,1059 }, { 133,1059 }, { 134,1059 }, { 135,1059 },
- { 136,1059 }, { 137,1059 }, { 138,1059 }, { 139,1059 }, { 140,1059 },
- { 141,1059 }, { 142,1059 }, { 143,1059 }, { 144,1059 }, { 145,1059 },
- { 146,1059 }, { 147,1059 }, { 148,1059 }, { 149,1059 }, { 150,1059 },
- { 151,1059 }, { 152,1059 }, { 153,1059 }, { 154,1059 }, { 155,1059 },
- { 156,1059 }, { 157,1059 }, { 158,1059 }, { 159,1059 }, { 160,1059 },
- { 161,1059 }, { 162,1059 }, { 163,1059 }, { 164,1059 }, { 165,1059 },
- { 166,1059 }, { 167,1059 }, { 168,1059 }, { 169,1059 }, { 170,1059 },
- { 171,1059 }, { 172,1059 }, { 173,1059 }, { 174,1059 }, { 175,1059 },
- { 176,1059 }, { 177,1059 }, { 178,1059 }, { 179,1059 }, { 180,1059 },
-
- { 181,1059 }, { 182,1059 }, { 183,1059 }, { 184,1059 }, { 185,1059 },
- { 186,1059 }, { 187,1059 }, { 188,1059 }, { 189,1059 }, { 190,1059 },
- { 191,1059 }, { 192,1059 }, { 193,1059 }, { 194,1059 }, { 195,1059 },
- { 196,1059 }, { 197,1059 }, { 198,1059 }, { 199,1059 }, { 200,1059 },
- { 201,1059 }, { 202,1059 }, { 203,1059 }, { 204,1059 }, { 205,1059 },
- { 206,1059 }, { 207,1059 }, { 208,1059 }, { 209,1059 }, { 210,1059 },
- { 211,1059 }, { 212,1059 }, { 213,1059 }, { 214,1059 }, { 215,1059 },
- { 216,1059 }, { 217,1059 }, { 218,1059 }, { 219,1059 }, { 220,1059 },
- { 221,1059 }, { 222,1059 }, { 223,1059 }, { 224,1059 }, { 225,1059 },
- { 226,1059 }, { 227,1059 }, { 228,1059 }, { 229,1059 }, { 230,1059 },
-
- { 231,1059 }, { 232,1059 }, { 233,1059 }, { 234,1059 }, { 235,1059 },
- { 236,1059 }, { 237,1059 }, { 238,1059 }, { 239,1059 }, { 240,1059 },
- { 241,1059 }, { 242,1059 }, { 243,1059 }, { 244,1059 }, { 245,1059 },
- { 246,1059 }, { 247,1059 }, { 248,1059 }, { 249,1059 }, { 250,1059 },
- { 251,1059 }, { 252,1059 }, { 253,1059 }, { 254,1059 }, { 255,1059 },
- { 256,1059 }, {   0,   0 }, {   0,5194 }, {   1, 277 }, {   2, 277 },
- {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
- {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
- {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
- {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
-
- {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
- {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
- {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
- {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
- {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1317 },
- {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
- {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
- {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
- {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
- {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
-
- {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
- {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
- {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
- {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
- {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
- {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
- { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
- { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
- { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
- { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
-
- { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
- { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
- { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
- { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
- { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
- { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
- { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
- { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
- { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
- { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
-
- { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
- { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
- { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
- { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
- { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
- { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
- { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
- { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
- { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
- { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
-
- { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
- { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
- { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
- { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
- { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
- { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
- { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
- {   0,4936 }, {   0,   1 }, {   0,4934 }, {   0,  47 }, {   0,4932 },
- {   0,  44 }, {   0,4930 }, {   0,  29 }, {   0,4928 }, {   0,  23 },
- {   0,4926 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,4919 }, {   0,   8 }, {   0,4917 },
- {   0,   1 }, {   0,4915 }, {   0,  45 }, {   0,4913 }, {   0,   0 },
- {   0,4911 }, {   0,   0 }, {   0,4909 }, {   1,-9789 }, {   2,-9789 },
- {   3,-9789 }, {   4,-9789 }, {   5,-9789 }, {   6,-9789 }, {   7,-9789 },
- {   8,-9789 }, {   9,  -4 }, {  10,  -4 }, {  11,-9789 }, {  12,-9789 },
- {  13,  -4 }, {  14,-9789 }, {  15,-9789 }, {  16,-9789 }, {  17,-9789 },
- {  18,-9789 }, {  19,-9789 }, {  20,-9789 }, {  21,-9789 }, {  22,-9789 },
- {  23,-9789 }, {  24,-9789 }, {  25,-9789 }, {  26,-9789 }, {  27,-9789 },
- {  28,-9789 }, {  29,-9789 }, {  30,-9789 }, {  31,-9789 }, {  32,  -4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9789 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9789 }, {  46,-9814 }, {  47,-9814 },
- {  48,-9789 }, {  49,-9789 }, {  50,-9789 }, {  51,-9789 }, {  52,-9789 },
- {  53,-9789 }, {  54,-9789 }, {  55,-9789 }, {  56,-9789 }, {  57,-9789 },
- {  58,-9789 }, {   0,   0 }, {   0,   0 }, {  61,-9814 }, {   0,   0 },
- {  63,-9789 }, {   0,   0 }, {  65,-9789 }, {  66,-9789 }, {  67,-9789 },
- {  68,-9789 }, {  69,-9789 }, {  70,-9789 }, {  71,-9789 }, {  72,-9789 },
- {  73,-9789 }, {  74,-9789 }, {  75,-9789 }, {  76,-9789 }, {  77,-9789 },
- {  78,-9789 }, {  79,-9789 }, {  80,-9789 }, {  81,-9789 }, {  82,-9789 },
- {  83,-9789 }, {  84,-9789 }, {  85,-9789 }, {  86,-9789 }, {  87,-9789 },
-
- {  88,-9789 }, {  89,-9789 }, {  90,-9789 }, { 101,1558 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9789 }, { 123,  21 }, {  97,-9789 },
- {  98,-9789 }, {  99,-9789 }, { 100,-9789 }, { 101,-9789 }, { 102,-9789 },
- { 103,-9789 }, { 104,-9789 }, { 105,-9789 }, { 106,-9789 }, { 107,-9789 },
- { 108,-9789 }, { 109,-9789 }, { 110,-9789 }, { 111,-9789 }, { 112,-9789 },
- { 113,-9789 }, { 114,-9789 }, { 115,-9789 }, { 116,-9789 }, { 117,-9789 },
- { 118,-9789 }, { 119,-9789 }, { 120,-9789 }, { 121,-9789 }, { 122,-9789 },
- { 125,3907 }, { 124,-9814 }, { 125,  -4 }, { 126,  -4 }, { 127,-9789 },
- { 128,-9789 }, { 129,-9789 }, { 130,-9789 }, { 131,-9789 }, { 132,-9789 },
- { 133,-9789 }, { 134,-9789 }, { 135,-9789 }, { 136,-9789 }, { 137,-9789 },
-
- { 138,-9789 }, { 139,-9789 }, { 140,-9789 }, { 141,-9789 }, { 142,-9789 },
- { 143,-9789 }, { 144,-9789 }, { 145,-9789 }, { 146,-9789 }, { 147,-9789 },
- { 148,-9789 }, { 149,-9789 }, { 150,-9789 }, { 151,-9789 }, { 152,-9789 },
- { 153,-9789 }, { 154,-9789 }, { 155,-9789 }, { 156,-9789 }, { 157,-9789 },
- { 158,-9789 }, { 159,-9789 }, { 160,-9789 }, { 161,-9789 }, { 162,-9789 },
- { 163,-9789 }, { 164,-9789 }, { 165,-9789 }, { 166,-9789 }, { 167,-9789 },
- { 168,-9789 }, { 169,-9789 }, { 170,-9789 }, { 171,-9789 }, { 172,-9789 },
- { 173,-9789 }, { 174,-9789 }, { 175,-9789 }, { 176,-9789 }, { 177,-9789 },
- { 178,-9789 }, { 179,-9789 }, { 180,-9789 }, { 181,-9789 }, { 182,-9789 },
- { 183,-9789 }, { 184,-9789 }, { 185,-9789 }, { 186,-9789 }, { 187,-9789 },
-
- { 188,-9789 }, { 189,-9789 }, { 190,-9789 }, { 191,-9789 }, { 192,-9789 },
- { 193,-9789 }, { 194,-9789 }, { 195,-9789 }, { 196,-9789 }, { 197,-9789 },
- { 198,-9789 }, { 199,-9789 }, { 200,-9789 }, { 201,-9789 }, { 202,-9789 },
- { 203,-9789 }, { 204,-9789 }, { 205,-9789 }, { 206,-9789 }, { 207,-9789 },
- { 208,-9789 }, { 209,-9789 }, { 210,-9789 }, { 211,-9789 }, { 212,-9789 },
- { 213,-9789 }, { 214,-9789 }, { 215,-9789 }, { 216,-9789 }, { 217,-9789 },
- { 218,-9789 }, { 219,-9789 }, { 220,-9789 }, { 221,-9789 }, { 222,-9789 },
- { 223,-9789 }, { 224,-9789 }, { 225,-9789 }, { 226,-9789 }, { 227,-9789 },
- { 228,-9789 }, { 229,-9789 }, { 230,-9789 }, { 231,-9789 }, { 232,-9789 },
- { 233,-9789 }, { 234,-9789 }, { 235,-9789 }, { 236,-9789 }, { 237,-9789 },
-
- { 238,-9789 }, { 239,-9789 }, { 240,-9789 }, { 241,-9789 }, { 242,-9789 },
- { 243,-9789 }, { 244,-9789 }, { 245,-9789 }, { 246,-9789 }, { 247,-9789 },
- { 248,-9789 }, { 249,-9789 }, { 250,-9789 }, { 251,-9789 }, { 252,-9789 },
- { 253,-9789 }, { 254,-9789 }, { 255,-9789 }, { 256,-9789 }, {   0,   0 },
- {   0,4651 }, {   1,-10047 }, {   2,-10047 }, {   3,-10047 }, {   4,-10047 },
- {   5,-10047 }, {   6,-10047 }, {   7,-10047 }, {   8,-10047 }, {   9,-10072 },
- {  10,-10072 }, {  11,-10047 }, {  12,-10047 }, {  13,-10072 }, {  14,-10047 },
- {  15,-10047 }, {  16,-10047 }, {  17,-10047 }, {  18,-10047 }, {  19,-10047 },
- {  20,-10047 }, {  21,-10047 }, {  22,-10047 }, {  23,-10047 }, {  24,-10047 },
- {  25,-10047 }, {  26,-10047 }, {  27,-10047 }, {  28,-10047 }, {  29,-10047 },
-
- {  30,-10047 }, {  31,-10047 }, {  32,-10072 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-10072 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-10047 }, {  46,-10072 }, {  47,-10072 }, {  48,-10047 }, {  49,-10047 },
- {  50,-10047 }, {  51,-10047 }, {  52,-10047 }, {  53,-10047 }, {  54,-10047 },
- {  55,-10047 }, {  56,-10047 }, {  57,-10047 }, {  58,-10047 }, {   0,   0 },
- {   0,   0 }, {  61,-10072 }, {   0,   0 }, {  63,-10047 }, {   0,   0 },
- {  65,-10047 }, {  66,-10047 }, {  67,-10047 }, {  68,-10047 }, {  69,-10047 },
- {  70,-10047 }, {  71,-10047 }, {  72,-10047 }, {  73,-10047 }, {  74,-10047 },
- {  75,-10047 }, {  76,-10047 }, {  77,-10047 }, {  78,-10047 }, {  79,-10047 },
-
- {  80,-10047 }, {  81,-10047 }, {  82,-10047 }, {  83,-10047 }, {  84,-10047 },
- {  85,-10047 }, {  86,-10047 }, {  87,-10047 }, {  88,-10047 }, {  89,-10047 },
- {  90,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-10047 }, {   0,   0 }, {  97,-10047 }, {  98,-10047 }, {  99,-10047 },
- { 100,-10047 }, { 101,-10047 }, { 102,-10047 }, { 103,-10047 }, { 104,-10047 },
- { 105,1032 }, { 106,-10047 }, { 107,-10047 }, { 108,-10047 }, { 109,-10047 },
- { 110,-10047 }, { 111,-10047 }, { 112,-10047 }, { 113,-10047 }, { 114,-10047 },
- { 115,-10047 }, { 116,-10047 }, { 117,-10047 }, { 118,-10047 }, { 119,-10047 },
- { 120,-10047 }, { 121,-10047 }, { 122,-10047 }, {   0,   0 }, { 124,-10072 },
- { 125,-10072 }, { 126,-10072 }, { 127,-10047 }, { 128,-10047 }, { 129,-10047 },
-
- { 130,-10047 }, { 131,-10047 }, { 132,-10047 }, { 133,-10047 }, { 134,-10047 },
- { 135,-10047 }, { 136,-10047 }, { 137,-10047 }, { 138,-10047 }, { 139,-10047 },
- { 140,-10047 }, { 141,-10047 }, { 142,-10047 }, { 143,-10047 }, { 144,-10047 },
- { 145,-10047 }, { 146,-10047 }, { 147,-10047 }, { 148,-10047 }, { 149,-10047 },
- { 150,-10047 }, { 151,-10047 }, { 152,-10047 }, { 153,-10047 }, { 154,-10047 },
- { 155,-10047 }, { 156,-10047 }, { 157,-10047 }, { 158,-10047 }, { 159,-10047 },
- { 160,-10047 }, { 161,-10047 }, { 162,-10047 }, { 163,-10047 }, { 164,-10047 },
- { 165,-10047 }, { 166,-10047 }, { 167,-10047 }, { 168,-10047 }, { 169,-10047 },
- { 170,-10047 }, { 171,-10047 }, { 172,-10047 }, { 173,-10047 }, { 174,-10047 },
- { 175,-10047 }, { 176,-10047 }, { 177,-10047 }, { 178,-10047 }, { 179,-10047 },
-
- { 180,-10047 }, { 181,-10047 }, { 182,-10047 }, { 183,-10047 }, { 184,-10047 },
- { 185,-10047 }, { 186,-10047 }, { 187,-10047 }, { 188,-10047 }, { 189,-10047 },
- { 190,-10047 }, { 191,-10047 }, { 192,-10047 }, { 193,-10047 }, { 194,-10047 },
- { 195,-10047 }, { 196,-10047 }, { 197,-10047 }, { 198,-10047 }, { 199,-10047 },
- { 200,-10047 }, { 201,-10047 }, { 202,-10047 }, { 203,-10047 }, { 204,-10047 },
- { 205,-10047 }, { 206,-10047 }, { 207,-10047 }, { 208,-10047 }, { 209,-10047 },
- { 210,-10047 }, { 211,-10047 }, { 212,-10047 }, { 213,-10047 }, { 214,-10047 },
- { 215,-10047 }, { 216,-10047 }, { 217,-10047 }, { 218,-10047 }, { 219,-10047 },
- { 220,-10047 }, { 221,-10047 }, { 222,-10047 }, { 223,-10047 }, { 224,-10047 },
- { 225,-10047 }, { 226,-10047 }, { 227,-10047 }, { 228,-10047 }, { 229,-10047 },
-
- { 230,-10047 }, { 231,-10047 }, { 232,-10047 }, { 233,-10047 }, { 234,-10047 },
- { 235,-10047 }, { 236,-10047 }, { 237,-10047 }, { 238,-10047 }, { 239,-10047 },
- { 240,-10047 }, { 241,-10047 }, { 242,-10047 }, { 243,-10047 }, { 244,-10047 },
- { 245,-10047 }, { 246,-10047 }, { 247,-10047 }, { 248,-10047 }, { 249,-10047 },
- { 250,-10047 }, { 251,-10047 }, { 252,-10047 }, { 253,-10047 }, { 254,-10047 },
- { 255,-10047 }, { 256,-10047 }, {   0,   0 }, {   0,4393 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
-
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,1160 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
-
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
-
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
-
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
-
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,4135 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
- {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
- {   9,1160 }, {  10,1160 }, {  11,1160 }, {  12,1160 }, {  13,1160 },
-
- {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
- {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
- {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
- {  29,1160 }, {  30,1160 }, {  31,1160 }, {  32,1160 }, {  33,1160 },
- {  34,1160 }, {  35,1160 }, {  36,1160 }, {  37,1160 }, {  38,1160 },
- {  39,1160 }, {  40,1160 }, {  41,1160 }, {  42,1160 }, {  43,1160 },
- {  44,1160 }, {  45,   0 }, {  46,1160 }, {  47,1160 }, {  48,1160 },
- {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
- {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
- {  59,1160 }, {  60,1160 }, {  61,1160 }, {  62,1160 }, {  63,1160 },
-
- {  64,1160 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
- {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
- {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
- {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
- {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
- {  89,1160 }, {  90,1160 }, {  91,1160 }, {  92,1160 }, {  93,1160 },
- {  94,1160 }, {  95,1160 }, {  96,1160 }, {  97,1160 }, {  98,1160 },
- {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
- { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
- { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
-
- { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
- { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, { 123,1160 },
- { 124,1160 }, { 125,1418 }, { 126,1676 }, { 127,1160 }, { 128,1160 },
- { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
- { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
- { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
- { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
- { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
- { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
- { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
-
- { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
- { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
- { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
- { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
- { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
- { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
- { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
- { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
- { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
- { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
-
- { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
- { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
- { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
- { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
- { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
- { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
- { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
- { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
- { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,3877 },
- {   1,1676 }, {   2,1676 }, {   3,1676 }, {   4,1676 }, {   5,1676 },
-
- {   6,1676 }, {   7,1676 }, {   8,1676 }, {   0,   0 }, {   0,   0 },
- {  11,1676 }, {  12,1676 }, {   0,   0 }, {  14,1676 }, {  15,1676 },
- {  16,1676 }, {  17,1676 }, {  18,1676 }, {  19,1676 }, {  20,1676 },
- {  21,1676 }, {  22,1676 }, {  23,1676 }, {  24,1676 }, {  25,1676 },
- {  26,1676 }, {  27,1676 }, {  28,1676 }, {  29,1676 }, {  30,1676 },
- {  31,1676 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1676 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1676 },
- {   0,   0 }, {   0,   0 }, {  48,1676 }, {  49,1676 }, {  50,1676 },
- {  51,1676 }, {  52,1676 }, {  53,1676 }, {  54,1676 }, {  55,1676 },
-
- {  56,1676 }, {  57,1676 }, {  58,1676 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1676 }, {   0,   0 }, {  65,1676 },
- {  66,1676 }, {  67,1676 }, {  68,1676 }, {  69,1676 }, {  70,1676 },
- {  71,1676 }, {  72,1676 }, {  73,1676 }, {  74,1676 }, {  75,1676 },
- {  76,1676 }, {  77,1676 }, {  78,1676 }, {  79,1676 }, {  80,1676 },
- {  81,1676 }, {  82,1676 }, {  83,1676 }, {  84,1676 }, {  85,1676 },
- {  86,1676 }, {  87,1676 }, {  88,1676 }, {  89,1676 }, {  90,1676 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1676 },
- {   0,   0 }, {  97,1676 }, {  98,1676 }, {  99,1676 }, { 100,1676 },
- { 101,1676 }, { 102,1676 }, { 103,1676 }, { 104,1676 }, { 105,1676 },
-
- { 106,1676 }, { 107,1676 }, { 108,1676 }, { 109,1676 }, { 110,1676 },
- { 111,1676 }, { 112,1676 }, { 113,1676 }, { 114,1676 }, { 115,1676 },
- { 116,1676 }, { 117,1676 }, { 118,1676 }, { 119,1676 }, { 120,1676 },
- { 121,1676 }, { 122,1676 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1676 }, { 128,1676 }, { 129,1676 }, { 130,1676 },
- { 131,1676 }, { 132,1676 }, { 133,1676 }, { 134,1676 }, { 135,1676 },
- { 136,1676 }, { 137,1676 }, { 138,1676 }, { 139,1676 }, { 140,1676 },
- { 141,1676 }, { 142,1676 }, { 143,1676 }, { 144,1676 }, { 145,1676 },
- { 146,1676 }, { 147,1676 }, { 148,1676 }, { 149,1676 }, { 150,1676 },
- { 151,1676 }, { 152,1676 }, { 153,1676 }, { 154,1676 }, { 155,1676 },
-
- { 156,1676 }, { 157,1676 }, { 158,1676 }, { 159,1676 }, { 160,1676 },
- { 161,1676 }, { 162,1676 }, { 163,1676 }, { 164,1676 }, { 165,1676 },
- { 166,1676 }, { 167,1676 }, { 168,1676 }, { 169,1676 }, { 170,1676 },
- { 171,1676 }, { 172,1676 }, { 173,1676 }, { 174,1676 }, { 175,1676 },
- { 176,1676 }, { 177,1676 }, { 178,1676 }, { 179,1676 }, { 180,1676 },
- { 181,1676 }, { 182,1676 }, { 183,1676 }, { 184,1676 }, { 185,1676 },
- { 186,1676 }, { 187,1676 }, { 188,1676 }, { 189,1676 }, { 190,1676 },
- { 191,1676 }, { 192,1676 }, { 193,1676 }, { 194,1676 }, { 195,1676 },
- { 196,1676 }, { 197,1676 }, { 198,1676 }, { 199,1676 }, { 200,1676 },
- { 201,1676 }, { 202,1676 }, { 203,1676 }, { 204,1676 }, { 205,1676 },
-
- { 206,1676 }, { 207,1676 }, { 208,1676 }, { 209,1676 }, { 210,1676 },
- { 211,1676 }, { 212,1676 }, { 213,1676 }, { 214,1676 }, { 215,1676 },
- { 216,1676 }, { 217,1676 }, { 218,1676 }, { 219,1676 }, { 220,1676 },
- { 221,1676 }, { 222,1676 }, { 223,1676 }, { 224,1676 }, { 225,1676 },
- { 226,1676 }, { 227,1676 }, { 228,1676 }, { 229,1676 }, { 230,1676 },
- { 231,1676 }, { 232,1676 }, { 233,1676 }, { 234,1676 }, { 235,1676 },
- { 236,1676 }, { 237,1676 }, { 238,1676 }, { 239,1676 }, { 240,1676 },
- { 241,1676 }, { 242,1676 }, { 243,1676 }, { 244,1676 }, { 245,1676 },
- { 246,1676 }, { 247,1676 }, { 248,1676 }, { 249,1676 }, { 250,1676 },
- { 251,1676 }, { 252,1676 }, { 253,1676 }, { 254,1676 }, { 255,1676 },
-
- { 256,1676 }, {   0,   0 }, {   0,3619 }, {   1,-11079 }, {   2,-11079 },
- {   3,-11079 }, {   4,-11079 }, {   5,-11079 }, {   6,-11079 }, {   7,-11079 },
- {   8,-11079 }, {   9,-11104 }, {  10,-11104 }, {  11,-11079 }, {  12,-11079 },
- {  13,-11104 }, {  14,-11079 }, {  15,-11079 }, {  16,-11079 }, {  17,-11079 },
- {  18,-11079 }, {  19,-11079 }, {  20,-11079 }, {  21,-11079 }, {  22,-11079 },
- {  23,-11079 }, {  24,-11079 }, {  25,-11079 }, {  26,-11079 }, {  27,-11079 },
- {  28,-11079 }, {  29,-11079 }, {  30,-11079 }, {  31,-11079 }, {  32,-11104 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11079 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11104 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11079 }, {  46,-11104 }, {  47,-11104 },
-
- {  48,-11079 }, {  49,-11079 }, {  50,-11079 }, {  51,-11079 }, {  52,-11079 },
- {  53,-11079 }, {  54,-11079 }, {  55,-11079 }, {  56,-11079 }, {  57,-11079 },
- {  58,-11079 }, {   0,   0 }, {   0,   0 }, {  61,-11104 }, {   0,   0 },
- {  63,-11079 }, {   0,   0 }, {  65,-11079 }, {  66,-11079 }, {  67,-11079 },
- {  68,-11079 }, {  69,-11079 }, {  70,-11079 }, {  71,-11079 }, {  72,-11079 },
- {  73,-11079 }, {  74,-11079 }, {  75,-11079 }, {  76,-11079 }, {  77,-11079 },
- {  78,-11079 }, {  79,-11079 }, {  80,-11079 }, {  81,-11079 }, {  82,-11079 },
- {  83,-11079 }, {  84,-11079 }, {  85,-11079 }, {  86,-11079 }, {  87,-11079 },
- {  88,-11079 }, {  89,-11079 }, {  90,-11079 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11079 }, {   0,   0 }, {  97,-11079 },
-
- {  98,-11079 }, {  99,-11079 }, { 100,-11079 }, { 101,-11079 }, { 102,-11079 },
- { 103,-11079 }, { 104,-11079 }, { 105,-11079 }, { 106,-11079 }, { 107,-11079 },
- { 108,-11079 }, { 109,-11079 }, { 110,1676 }, { 111,-11079 }, { 112,-11079 },
- { 113,-11079 }, { 114,-11079 }, { 115,-11079 }, { 116,-11079 }, { 117,-11079 },
- { 118,-11079 }, { 119,-11079 }, { 120,-11079 }, { 121,-11079 }, { 122,-11079 },
- {   0,   0 }, { 124,-11104 }, { 125,-11104 }, { 126,-11104 }, { 127,-11079 },
- { 128,-11079 }, { 129,-11079 }, { 130,-11079 }, { 131,-11079 }, { 132,-11079 },
- { 133,-11079 }, { 134,-11079 }, { 135,-11079 }, { 136,-11079 }, { 137,-11079 },
- { 138,-11079 }, { 139,-11079 }, { 140,-11079 }, { 141,-11079 }, { 142,-11079 },
- { 143,-11079 }, { 144,-11079 }, { 145,-11079 }, { 146,-11079 }, { 147,-11079 },
-
- { 148,-11079 }, { 149,-11079 }, { 150,-11079 }, { 151,-11079 }, { 152,-11079 },
- { 153,-11079 }, { 154,-11079 }, { 155,-11079 }, { 156,-11079 }, { 157,-11079 },
- { 158,-11079 }, { 159,-11079 }, { 160,-11079 }, { 161,-11079 }, { 162,-11079 },
- { 163,-11079 }, { 164,-11079 }, { 165,-11079 }, { 166,-11079 }, { 167,-11079 },
- { 168,-11079 }, { 169,-11079 }, { 170,-11079 }, { 171,-11079 }, { 172,-11079 },
- { 173,-11079 }, { 174,-11079 }, { 175,-11079 }, { 176,-11079 }, { 177,-11079 },
- { 178,-11079 }, { 179,-11079 }, { 180,-11079 }, { 181,-11079 }, { 182,-11079 },
- { 183,-11079 }, { 184,-11079 }, { 185,-11079 }, { 186,-11079 }, { 187,-11079 },
- { 188,-11079 }, { 189,-11079 }, { 190,-11079 }, { 191,-11079 }, { 192,-11079 },
- { 193,-11079 }, { 194,-11079 }, { 195,-11079 }, { 196,-11079 }, { 197,-11079 },
-
- { 198,-11079 }, { 199,-11079 }, { 200,-11079 }, { 201,-11079 }, { 202,-11079 },
- { 203,-11079 }, { 204,-11079 }, { 205,-11079 }, { 206,-11079 }, { 207,-11079 },
- { 208,-11079 }, { 209,-11079 }, { 210,-11079 }, { 211,-11079 }, { 212,-11079 },
- { 213,-11079 }, { 214,-11079 }, { 215,-11079 }, { 216,-11079 }, { 217,-11079 },
- { 218,-11079 }, { 219,-11079 }, { 220,-11079 }, { 221,-11079 }, { 222,-11079 },
- { 223,-11079 }, { 224,-11079 }, { 225,-11079 }, { 226,-11079 }, { 227,-11079 },
- { 228,-11079 }, { 229,-11079 }, { 230,-11079 }, { 231,-11079 }, { 232,-11079 },
- { 233,-11079 }, { 234,-11079 }, { 235,-11079 }, { 236,-11079 }, { 237,-11079 },
- { 238,-11079 }, { 239,-11079 }, { 240,-11079 }, { 241,-11079 }, { 242,-11079 },
- { 243,-11079 }, { 244,-11079 }, { 245,-11079 }, { 246,-11079 }, { 247,-11079 },
-
- { 248,-11079 }, { 249,-11079 }, { 250,-11079 }, { 251,-11079 }, { 252,-11079 },
- { 253,-11079 }, { 254,-11079 }, { 255,-11079 }, { 256,-11079 }, {   0,  26 },
- {   0,3361 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1676 },
- {  10,1676 }, {   0,   0 }, {   0,   0 }, {  13,1676 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1676 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,-1550 }, { 126,1678 }, {   0,   0 }, {   0,3233 }, {   1,-1160 },
- {   2,-1160 }, {   3,-1160 }, {   4,-1160 }, {   5,-1160 }, {   6,-1160 },
- {   7,-1160 }, {   8,-1160 }, {   9,-1160 }, {  10,-1160 }, {  11,-1160 },
-
- {  12,-1160 }, {  13,-1160 }, {  14,-1160 }, {  15,-1160 }, {  16,-1160 },
- {  17,-1160 }, {  18,-1160 }, {  19,-1160 }, {  20,-1160 }, {  21,-1160 },
- {  22,-1160 }, {  23,-1160 }, {  24,-1160 }, {  25,-1160 }, {  26,-1160 },
- {  27,-1160 }, {  28,-1160 }, {  29,-1160 }, {  30,-1160 }, {  31,-1160 },
- {  32,-1160 }, {  33,-1160 }, {  34,-1160 }, {  35,-1160 }, {  36,-1160 },
- {  37,-1160 }, {  38,-1160 }, {  39,-1160 }, {  40,-1160 }, {  41,-1160 },
- {  42,-1160 }, {  43,-1160 }, {  44,-1160 }, {  45,-902 }, {  46,-1160 },
- {  47,-1160 }, {  48,-1160 }, {  49,-1160 }, {  50,-1160 }, {  51,-1160 },
- {  52,-1160 }, {  53,-1160 }, {  54,-1160 }, {  55,-1160 }, {  56,-1160 },
- {  57,-1160 }, {  58,-1160 }, {  59,-1160 }, {  60,-1160 }, {  61,-1160 },
-
- {  62,-1160 }, {  63,-1160 }, {  64,-1160 }, {  65,-1160 }, {  66,-1160 },
- {  67,-1160 }, {  68,-1160 }, {  69,-1160 }, {  70,-1160 }, {  71,-1160 },
- {  72,-1160 }, {  73,-1160 }, {  74,-1160 }, {  75,-1160 }, {  76,-1160 },
- {  77,-1160 }, {  78,-1160 }, {  79,-1160 }, {  80,-1160 }, {  81,-1160 },
- {  82,-1160 }, {  83,-1160 }, {  84,-1160 }, {  85,-1160 }, {  86,-1160 },
- {  87,-1160 }, {  88,-1160 }, {  89,-1160 }, {  90,-1160 }, {  91,-1160 },
- {  92,-1160 }, {  93,-1160 }, {  94,-1160 }, {  95,-1160 }, {  96,-1160 },
- {  97,-1160 }, {  98,-1160 }, {  99,-1160 }, { 100,-1160 }, { 101,-1160 },
- { 102,-1160 }, { 103,-1160 }, { 104,-1160 }, { 105,-1160 }, { 106,-1160 },
- { 107,-1160 }, { 108,-1160 }, { 109,-1160 }, { 110,-1160 }, { 111,-1160 },
-
- { 112,-1160 }, { 113,-1160 }, { 114,-1160 }, { 115,-1160 }, { 116,-1160 },
- { 117,-1160 }, { 118,-1160 }, { 119,-1160 }, { 120,-1160 }, { 121,-1160 },
- { 122,-1160 }, { 123,-1160 }, { 124,-1160 }, { 125,-1160 }, { 126,-1160 },
- { 127,-1160 }, { 128,-1160 }, { 129,-1160 }, { 130,-1160 }, { 131,-1160 },
- { 132,-1160 }, { 133,-1160 }, { 134,-1160 }, { 135,-1160 }, { 136,-1160 },
- { 137,-1160 }, { 138,-1160 }, { 139,-1160 }, { 140,-1160 }, { 141,-1160 },
- { 142,-1160 }, { 143,-1160 }, { 144,-1160 }, { 145,-1160 }, { 146,-1160 },
- { 147,-1160 }, { 148,-1160 }, { 149,-1160 }, { 150,-1160 }, { 151,-1160 },
- { 152,-1160 }, { 153,-1160 }, { 154,-1160 }, { 155,-1160 }, { 156,-1160 },
- { 157,-1160 }, { 158,-1160 }, { 159,-1160 }, { 160,-1160 }, { 161,-1160 },
-
- { 162,-1160 }, { 163,-1160 }, { 164,-1160 }, { 165,-1160 }, { 166,-1160 },
- { 167,-1160 }, { 168,-1160 }, { 169,-1160 }, { 170,-1160 }, { 171,-1160 },
- { 172,-1160 }, { 173,-1160 }, { 174,-1160 }, { 175,-1160 }, { 176,-1160 },
- { 177,-1160 }, { 178,-1160 }, { 179,-1160 }, { 180,-1160 }, { 181,-1160 },
- { 182,-1160 }, { 183,-1160 }, { 184,-1160 }, { 185,-1160 }, { 186,-1160 },
- { 187,-1160 }, { 188,-1160 }, { 189,-1160 }, { 190,-1160 }, { 191,-1160 },
- { 192,-1160 }, { 193,-1160 }, { 194,-1160 }, { 195,-1160 }, { 196,-1160 },
- { 197,-1160 }, { 198,-1160 }, { 199,-1160 }, { 200,-1160 }, { 201,-1160 },
- { 202,-1160 }, { 203,-1160 }, { 204,-1160 }, { 205,-1160 }, { 206,-1160 },
- { 207,-1160 }, { 208,-1160 }, { 209,-1160 }, { 210,-1160 }, { 211,-1160 },
-
- { 212,-1160 }, { 213,-1160 }, { 214,-1160 }, { 215,-1160 }, { 216,-1160 },
- { 217,-1160 }, { 218,-1160 }, { 219,-1160 }, { 220,-1160 }, { 221,-1160 },
- { 222,-1160 }, { 223,-1160 }, { 224,-1160 }, { 225,-1160 }, { 226,-1160 },
- { 227,-1160 }, { 228,-1160 }, { 229,-1160 }, { 230,-1160 }, { 231,-1160 },
- { 232,-1160 }, { 233,-1160 }, { 234,-1160 }, { 235,-1160 }, { 236,-1160 },
- { 237,-1160 }, { 238,-1160 }, { 239,-1160 }, { 240,-1160 }, { 241,-1160 },
- { 242,-1160 }, { 243,-1160 }, { 244,-1160 }, { 245,-1160 }, { 246,-1160 },
- { 247,-1160 }, { 248,-1160 }, { 249,-1160 }, { 250,-1160 }, { 251,-1160 },
- { 252,-1160 }, { 253,-1160 }, { 254,-1160 }, { 255,-1160 }, { 256,-1160 },
- {   0,   0 }, {   0,2975 }, {   1,1419 }, {   2,1419 }, {   3,1419 },
-
- {   4,1419 }, {   5,1419 }, {   6,1419 }, {   7,1419 }, {   8,1419 },
- {   9,1419 }, {  10,1419 }, {  11,1419 }, {  12,1419 }, {  13,1419 },
- {  14,1419 }, {  15,1419 }, {  16,1419 }, {  17,1419 }, {  18,1419 },
- {  19,1419 }, {  20,1419 }, {  21,1419 }, {  22,1419 }, {  23,1419 },
- {  24,1419 }, {  25,1419 }, {  26,1419 }, {  27,1419 }, {  28,1419 },
- {  29,1419 }, {  30,1419 }, {  31,1419 }, {  32,1419 }, {  33,1419 },
- {  34,1419 }, {  35,1419 }, {  36,1419 }, {  37,1419 }, {  38,1419 },
- {  39,1419 }, {  40,1419 }, {  41,1419 }, {  42,1419 }, {  43,1419 },
- {  44,1419 }, {  45,-258 }, {  46,1419 }, {  47,1419 }, {  48,1419 },
- {  49,1419 }, {  50,1419 }, {  51,1419 }, {  52,1419 }, {  53,1419 },
-
- {  54,1419 }, {  55,1419 }, {  56,1419 }, {  57,1419 }, {  58,1419 },
- {  59,1419 }, {  60,1419 }, {  61,1419 }, {  62,1419 }, {  63,1419 },
- {  64,1419 }, {  65,1419 }, {  66,1419 }, {  67,1419 }, {  68,1419 },
- {  69,1419 }, {  70,1419 }, {  71,1419 }, {  72,1419 }, {  73,1419 },
- {  74,1419 }, {  75,1419 }, {  76,1419 }, {  77,1419 }, {  78,1419 },
- {  79,1419 }, {  80,1419 }, {  81,1419 }, {  82,1419 }, {  83,1419 },
- {  84,1419 }, {  85,1419 }, {  86,1419 }, {  87,1419 }, {  88,1419 },
- {  89,1419 }, {  90,1419 }, {  91,1419 }, {  92,1419 }, {  93,1419 },
- {  94,1419 }, {  95,1419 }, {  96,1419 }, {  97,1419 }, {  98,1419 },
- {  99,1419 }, { 100,1419 }, { 101,1419 }, { 102,1419 }, { 103,1419 },
-
- { 104,1419 }, { 105,1419 }, { 106,1419 }, { 107,1419 }, { 108,1419 },
- { 109,1419 }, { 110,1419 }, { 111,1419 }, { 112,1419 }, { 113,1419 },
- { 114,1419 }, { 115,1419 }, { 116,1419 }, { 117,1419 }, { 118,1419 },
- { 119,1419 }, { 120,1419 }, { 121,1419 }, { 122,1419 }, { 123,1419 },
- { 124,1419 }, { 125,1419 }, { 126,1419 }, { 127,1419 }, { 128,1419 },
- { 129,1419 }, { 130,1419 }, { 131,1419 }, { 132,1419 }, { 133,1419 },
- { 134,1419 }, { 135,1419 }, { 136,1419 }, { 137,1419 }, { 138,1419 },
- { 139,1419 }, { 140,1419 }, { 141,1419 }, { 142,1419 }, { 143,1419 },
- { 144,1419 }, { 145,1419 }, { 146,1419 }, { 147,1419 }, { 148,1419 },
- { 149,1419 }, { 150,1419 }, { 151,1419 }, { 152,1419 }, { 153,1419 },
-
- { 154,1419 }, { 155,1419 }, { 156,1419 }, { 157,1419 }, { 158,1419 },
- { 159,1419 }, { 160,1419 }, { 161,1419 }, { 162,1419 }, { 163,1419 },
- { 164,1419 }, { 165,1419 }, { 166,1419 }, { 167,1419 }, { 168,1419 },
- { 169,1419 }, { 170,1419 }, { 171,1419 }, { 172,1419 }, { 173,1419 },
- { 174,1419 }, { 175,1419 }, { 176,1419 }, { 177,1419 }, { 178,1419 },
- { 179,1419 }, { 180,1419 }, { 181,1419 }, { 182,1419 }, { 183,1419 },
- { 184,1419 }, { 185,1419 }, { 186,1419 }, { 187,1419 }, { 188,1419 },
- { 189,1419 }, { 190,1419 }, { 191,1419 }, { 192,1419 }, { 193,1419 },
- { 194,1419 }, { 195,1419 }, { 196,1419 }, { 197,1419 }, { 198,1419 },
- { 199,1419 }, { 200,1419 }, { 201,1419 }, { 202,1419 }, { 203,1419 },
-
- { 204,1419 }, { 205,1419 }, { 206,1419 }, { 207,1419 }, { 208,1419 },
- { 209,1419 }, { 210,1419 }, { 211,1419 }, { 212,1419 }, { 213,1419 },
- { 214,1419 }, { 215,1419 }, { 216,1419 }, { 217,1419 }, { 218,1419 },
- { 219,1419 }, { 220,1419 }, { 221,1419 }, { 222,1419 }, { 223,1419 },
- { 224,1419 }, { 225,1419 }, { 226,1419 }, { 227,1419 }, { 228,1419 },
- { 229,1419 }, { 230,1419 }, { 231,1419 }, { 232,1419 }, { 233,1419 },
- { 234,1419 }, { 235,1419 }, { 236,1419 }, { 237,1419 }, { 238,1419 },
- { 239,1419 }, { 240,1419 }, { 241,1419 }, { 242,1419 }, { 243,1419 },
- { 244,1419 }, { 245,1419 }, { 246,1419 }, { 247,1419 }, { 248,1419 },
- { 249,1419 }, { 250,1419 }, { 251,1419 }, { 252,1419 }, { 253,1419 },
-
- { 254,1419 }, { 255,1419 }, { 256,1419 }, {   0,   0 }, {   0,2717 },
- {   1,1419 }, {   2,1419 }, {   3,1419 }, {   4,1419 }, {   5,1419 },
- {   6,1419 }, {   7,1419 }, {   8,1419 }, {   9,1419 }, {  10,1419 },
- {  11,1419 }, {  12,1419 }, {  13,1419 }, {  14,1419 }, {  15,1419 },
- {  16,1419 }, {  17,1419 }, {  18,1419 }, {  19,1419 }, {  20,1419 },
- {  21,1419 }, {  22,1419 }, {  23,1419 }, {  24,1419 }, {  25,1419 },
- {  26,1419 }, {  27,1419 }, {  28,1419 }, {  29,1419 }, {  30,1419 },
- {  31,1419 }, {  32,1419 }, {  33,1419 }, {  34,1419 }, {  35,1419 },
- {  36,1419 }, {  37,1419 }, {  38,1419 }, {  39,1419 }, {  40,1419 },
- {  41,1419 }, {  42,1419 }, {  43,1419 }, {  44,1419 }, {  45,-516 },
-
- {  46,1419 }, {  47,1419 }, {  48,1419 }, {  49,1419 }, {  50,1419 },
- {  51,1419 }, {  52,1419 }, {  53,1419 }, {  54,1419 }, {  55,1419 },
- {  56,1419 }, {  57,1419 }, {  58,1419 }, {  59,1419 }, {  60,1419 },
- {  61,1419 }, {  62,1419 }, {  63,1419 }, {  64,1419 }, {  65,1419 },
- {  66,1419 }, {  67,1419 }, {  68,1419 }, {  69,1419 }, {  70,1419 },
- {  71,1419 }, {  72,1419 }, {  73,1419 }, {  74,1419 }, {  75,1419 },
- {  76,1419 }, {  77,1419 }, {  78,1419 }, {  79,1419 }, {  80,1419 },
- {  81,1419 }, {  82,1419 }, {  83,1419 }, {  84,1419 }, {  85,1419 },
- {  86,1419 }, {  87,1419 }, {  88,1419 }, {  89,1419 }, {  90,1419 },
- {  91,1419 }, {  92,1419 }, {  93,1419 }, {  94,1419 }, {  95,1419 },
-
- {  96,1419 }, {  97,1419 }, {  98,1419 }, {  99,1419 }, { 100,1419 },
- { 101,1419 }, { 102,1419 }, { 103,1419 }, { 104,1419 }, { 105,1419 },
- { 106,1419 }, { 107,1419 }, { 108,1419 }, { 109,1419 }, { 110,1419 },
- { 111,1419 }, { 112,1419 }, { 113,1419 }, { 114,1419 }, { 115,1419 },
- { 116,1419 }, { 117,1419 }, { 118,1419 }, { 119,1419 }, { 120,1419 },
- { 121,1419 }, { 122,1419 }, { 123,1419 }, { 124,1419 }, { 125,1036 },
- { 126,1419 }, { 127,1419 }, { 128,1419 }, { 129,1419 }, { 130,1419 },
- { 131,1419 }, { 132,1419 }, { 133,1419 }, { 134,1419 }, { 135,1419 },
- { 136,1419 }, { 137,1419 }, { 138,1419 }, { 139,1419 }, { 140,1419 },
- { 141,1419 }, { 142,1419 }, { 143,1419 }, { 144,1419 }, { 145,1419 },
-
- { 146,1419 }, { 147,1419 }, { 148,1419 }, { 149,1419 }, { 150,1419 },
- { 151,1419 }, { 152,1419 }, { 153,1419 }, { 154,1419 }, { 155,1419 },
- { 156,1419 }, { 157,1419 }, { 158,1419 }, { 159,1419 }, { 160,1419 },
- { 161,1419 }, { 162,1419 }, { 163,1419 }, { 164,1419 }, { 165,1419 },
- { 166,1419 }, { 167,1419 }, { 168,1419 }, { 169,1419 }, { 170,1419 },
- { 171,1419 }, { 172,1419 }, { 173,1419 }, { 174,1419 }, { 175,1419 },
- { 176,1419 }, { 177,1419 }, { 178,1419 }, { 179,1419 }, { 180,1419 },
- { 181,1419 }, { 182,1419 }, { 183,1419 }, { 184,1419 }, { 185,1419 },
- { 186,1419 }, { 187,1419 }, { 188,1419 }, { 189,1419 }, { 190,1419 },
- { 191,1419 }, { 192,1419 }, { 193,1419 }, { 194,1419 }, { 195,1419 },
-
- { 196,1419 }, { 197,1419 }, { 198,1419 }, { 199,1419 }, { 200,1419 },
- { 201,1419 }, { 202,1419 }, { 203,1419 }, { 204,1419 }, { 205,1419 },
- { 206,1419 }, { 207,1419 }, { 208,1419 }, { 209,1419 }, { 210,1419 },
- { 211,1419 }, { 212,1419 }, { 213,1419 }, { 214,1419 }, { 215,1419 },
- { 216,1419 }, { 217,1419 }, { 218,1419 }, { 219,1419 }, { 220,1419 },
- { 221,1419 }, { 222,1419 }, { 223,1419 }, { 224,1419 }, { 225,1419 },
- { 226,1419 }, { 227,1419 }, { 228,1419 }, { 229,1419 }, { 230,1419 },
- { 231,1419 }, { 232,1419 }, { 233,1419 }, { 234,1419 }, { 235,1419 },
- { 236,1419 }, { 237,1419 }, { 238,1419 }, { 239,1419 }, { 240,1419 },
- { 241,1419 }, { 242,1419 }, { 243,1419 }, { 244,1419 }, { 245,1419 },
-
- { 246,1419 }, { 247,1419 }, { 248,1419 }, { 249,1419 }, { 250,1419 },
- { 251,1419 }, { 252,1419 }, { 253,1419 }, { 254,1419 }, { 255,1419 },
- { 256,1419 }, {   0,   0 }, {   0,2459 }, {   1,1161 }, {   2,1161 },
- {   3,1161 }, {   4,1161 }, {   5,1161 }, {   6,1161 }, {   7,1161 },
- {   8,1161 }, {   9,1161 }, {  10,1161 }, {  11,1161 }, {  12,1161 },
- {  13,1161 }, {  14,1161 }, {  15,1161 }, {  16,1161 }, {  17,1161 },
- {  18,1161 }, {  19,1161 }, {  20,1161 }, {  21,1161 }, {  22,1161 },
- {  23,1161 }, {  24,1161 }, {  25,1161 }, {  26,1161 }, {  27,1161 },
- {  28,1161 }, {  29,1161 }, {  30,1161 }, {  31,1161 }, {  32,1161 },
- {  33,1161 }, {  34,1161 }, {  35,1161 }, {  36,1161 }, {  37,1161 },
-
- {  38,1161 }, {  39,1161 }, {  40,1161 }, {  41,1161 }, {  42,1161 },
- {  43,1161 }, {  44,1161 }, {  45,-774 }, {  46,1161 }, {  47,1161 },
- {  48,1161 }, {  49,1161 }, {  50,1161 }, {  51,1161 }, {  52,1161 },
- {  53,1161 }, {  54,1161 }, {  55,1161 }, {  56,1161 }, {  57,1161 },
- {  58,1161 }, {  59,1161 }, {  60,1161 }, {  61,1161 }, {  62,1161 },
- {  63,1161 }, {  64,1161 }, {  65,1161 }, {  66,1161 }, {  67,1161 },
- {  68,1161 }, {  69,1161 }, {  70,1161 }, {  71,1161 }, {  72,1161 },
- {  73,1161 }, {  74,1161 }, {  75,1161 }, {  76,1161 }, {  77,1161 },
- {  78,1161 }, {  79,1161 }, {  80,1161 }, {  81,1161 }, {  82,1161 },
- {  83,1161 }, {  84,1161 }, {  85,1161 }, {  86,1161 }, {  87,1161 },
-
- {  88,1161 }, {  89,1161 }, {  90,1161 }, {  91,1161 }, {  92,1161 },
- {  93,1161 }, {  94,1161 }, {  95,1161 }, {  96,1161 }, {  97,1161 },
- {  98,1161 }, {  99,1161 }, { 100,1161 }, { 101,1161 }, { 102,1161 },
- { 103,1161 }, { 104,1161 }, { 105,1161 }, { 106,1161 }, { 107,1161 },
- { 108,1161 }, { 109,1161 }, { 110,1161 }, { 111,1161 }, { 112,1161 },
- { 113,1161 }, { 114,1161 }, { 115,1161 }, { 116,1161 }, { 117,1161 },
- { 118,1161 }, { 119,1161 }, { 120,1161 }, { 121,1161 }, { 122,1161 },
- { 123,1161 }, { 124,1161 }, { 125,-258 }, { 126,1161 }, { 127,1161 },
- { 128,1161 }, { 129,1161 }, { 130,1161 }, { 131,1161 }, { 132,1161 },
- { 133,1161 }, { 134,1161 }, { 135,1161 }, { 136,1161 }, { 137,1161 },
-
- { 138,1161 }, { 139,1161 }, { 140,1161 }, { 141,1161 }, { 142,1161 },
- { 143,1161 }, { 144,1161 }, { 145,1161 }, { 146,1161 }, { 147,1161 },
- { 148,1161 }, { 149,1161 }, { 150,1161 }, { 151,1161 }, { 152,1161 },
- { 153,1161 }, { 154,1161 }, { 155,1161 }, { 156,1161 }, { 157,1161 },
- { 158,1161 }, { 159,1161 }, { 160,1161 }, { 161,1161 }, { 162,1161 },
- { 163,1161 }, { 164,1161 }, { 165,1161 }, { 166,1161 }, { 167,1161 },
- { 168,1161 }, { 169,1161 }, { 170,1161 }, { 171,1161 }, { 172,1161 },
- { 173,1161 }, { 174,1161 }, { 175,1161 }, { 176,1161 }, { 177,1161 },
- { 178,1161 }, { 179,1161 }, { 180,1161 }, { 181,1161 }, { 182,1161 },
- { 183,1161 }, { 184,1161 }, { 185,1161 }, { 186,1161 }, { 187,1161 },
-
- { 188,1161 }, { 189,1161 }, { 190,1161 }, { 191,1161 }, { 192,1161 },
- { 193,1161 }, { 194,1161 }, { 195,1161 }, { 196,1161 }, { 197,1161 },
- { 198,1161 }, { 199,1161 }, { 200,1161 }, { 201,1161 }, { 202,1161 },
- { 203,1161 }, { 204,1161 }, { 205,1161 }, { 206,1161 }, { 207,1161 },
- { 208,1161 }, { 209,1161 }, { 210,1161 }, { 211,1161 }, { 212,1161 },
- { 213,1161 }, { 214,1161 }, { 215,1161 }, { 216,1161 }, { 217,1161 },
- { 218,1161 }, { 219,1161 }, { 220,1161 }, { 221,1161 }, { 222,1161 },
- { 223,1161 }, { 224,1161 }, { 225,1161 }, { 226,1161 }, { 227,1161 },
- { 228,1161 }, { 229,1161 }, { 230,1161 }, { 231,1161 }, { 232,1161 },
- { 233,1161 }, { 234,1161 }, { 235,1161 }, { 236,1161 }, { 237,1161 },
-
- { 238,1161 }, { 239,1161 }, { 240,1161 }, { 241,1161 }, { 242,1161 },
- { 243,1161 }, { 244,1161 }, { 245,1161 }, { 246,1161 }, { 247,1161 },
- { 248,1161 }, { 249,1161 }, { 250,1161 }, { 251,1161 }, { 252,1161 },
- { 253,1161 }, { 254,1161 }, { 255,1161 }, { 256,1161 }, {   0,   0 },
- {   0,2201 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 },
- {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
-
- {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
-
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1161 }, {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
-
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
-
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
-
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1943 }, {   1,-12755 },
- {   2,-12755 }, {   3,-12755 }, {   4,-12755 }, {   5,-12755 }, {   6,-12755 },
- {   7,-12755 }, {   8,-12755 }, {   9,-12780 }, {  10,-12780 }, {  11,-12755 },
- {  12,-12755 }, {  13,-12780 }, {  14,-12755 }, {  15,-12755 }, {  16,-12755 },
- {  17,-12755 }, {  18,-12755 }, {  19,-12755 }, {  20,-12755 }, {  21,-12755 },
-
- {  22,-12755 }, {  23,-12755 }, {  24,-12755 }, {  25,-12755 }, {  26,-12755 },
- {  27,-12755 }, {  28,-12755 }, {  29,-12755 }, {  30,-12755 }, {  31,-12755 },
- {  32,-12780 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12755 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12780 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12755 }, {  46,-12780 },
- {  47,-12780 }, {  48,-12755 }, {  49,-12755 }, {  50,-12755 }, {  51,-12755 },
- {  52,-12755 }, {  53,-12755 }, {  54,-12755 }, {  55,-12755 }, {  56,-12755 },
- {  57,-12755 }, {  58,-12755 }, {   0,   0 }, {   0,   0 }, {  61,-12780 },
- {   0,   0 }, {  63,-12755 }, {   0,   0 }, {  65,-12755 }, {  66,-12755 },
- {  67,-12755 }, {  68,-12755 }, {  69,-12755 }, {  70,-12755 }, {  71,-12755 },
-
- {  72,-12755 }, {  73,-12755 }, {  74,-12755 }, {  75,-12755 }, {  76,-12755 },
- {  77,-12755 }, {  78,-12755 }, {  79,-12755 }, {  80,-12755 }, {  81,-12755 },
- {  82,-12755 }, {  83,-12755 }, {  84,-12755 }, {  85,-12755 }, {  86,-12755 },
- {  87,-12755 }, {  88,-12755 }, {  89,-12755 }, {  90,-12755 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12755 }, {   0,   0 },
- {  97,-12755 }, {  98,-12755 }, {  99,-12755 }, { 100,-12755 }, { 101, 905 },
- { 102,-12755 }, { 103,-12755 }, { 104,-12755 }, { 105,-12755 }, { 106,-12755 },
- { 107,-12755 }, { 108,-12755 }, { 109,-12755 }, { 110,-12755 }, { 111,-12755 },
- { 112,-12755 }, { 113,-12755 }, { 114,-12755 }, { 115,-12755 }, { 116,-12755 },
- { 117,-12755 }, { 118,-12755 }, { 119,-12755 }, { 120,-12755 }, { 121,-12755 },
-
- { 122,-12755 }, {   0,   0 }, { 124,-12780 }, { 125,-12780 }, { 126,-12780 },
- { 127,-12755 }, { 128,-12755 }, { 129,-12755 }, { 130,-12755 }, { 131,-12755 },
- { 132,-12755 }, { 133,-12755 }, { 134,-12755 }, { 135,-12755 }, { 136,-12755 },
- { 137,-12755 }, { 138,-12755 }, { 139,-12755 }, { 140,-12755 }, { 141,-12755 },
- { 142,-12755 }, { 143,-12755 }, { 144,-12755 }, { 145,-12755 }, { 146,-12755 },
- { 147,-12755 }, { 148,-12755 }, { 149,-12755 }, { 150,-12755 }, { 151,-12755 },
- { 152,-12755 }, { 153,-12755 }, { 154,-12755 }, { 155,-12755 }, { 156,-12755 },
- { 157,-12755 }, { 158,-12755 }, { 159,-12755 }, { 160,-12755 }, { 161,-12755 },
- { 162,-12755 }, { 163,-12755 }, { 164,-12755 }, { 165,-12755 }, { 166,-12755 },
- { 167,-12755 }, { 168,-12755 }, { 169,-12755 }, { 170,-12755 }, { 171,-12755 },
-
- { 172,-12755 }, { 173,-12755 }, { 174,-12755 }, { 175,-12755 }, { 176,-12755 },
- { 177,-12755 }, { 178,-12755 }, { 179,-12755 }, { 180,-12755 }, { 181,-12755 },
- { 182,-12755 }, { 183,-12755 }, { 184,-12755 }, { 185,-12755 }, { 186,-12755 },
- { 187,-12755 }, { 188,-12755 }, { 189,-12755 }, { 190,-12755 }, { 191,-12755 },
- { 192,-12755 }, { 193,-12755 }, { 194,-12755 }, { 195,-12755 }, { 196,-12755 },
- { 197,-12755 }, { 198,-12755 }, { 199,-12755 }, { 200,-12755 }, { 201,-12755 },
- { 202,-12755 }, { 203,-12755 }, { 204,-12755 }, { 205,-12755 }, { 206,-12755 },
- { 207,-12755 }, { 208,-12755 }, { 209,-12755 }, { 210,-12755 }, { 211,-12755 },
- { 212,-12755 }, { 213,-12755 }, { 214,-12755 }, { 215,-12755 }, { 216,-12755 },
- { 217,-12755 }, { 218,-12755 }, { 219,-12755 }, { 220,-12755 }, { 221,-12755 },
-
- { 222,-12755 }, { 223,-12755 }, { 224,-12755 }, { 225,-12755 }, { 226,-12755 },
- { 227,-12755 }, { 228,-12755 }, { 229,-12755 }, { 230,-12755 }, { 231,-12755 },
- { 232,-12755 }, { 233,-12755 }, { 234,-12755 }, { 235,-12755 }, { 236,-12755 },
- { 237,-12755 }, { 238,-12755 }, { 239,-12755 }, { 240,-12755 }, { 241,-12755 },
- { 242,-12755 }, { 243,-12755 }, { 244,-12755 }, { 245,-12755 }, { 246,-12755 },
- { 247,-12755 }, { 248,-12755 }, { 249,-12755 }, { 250,-12755 }, { 251,-12755 },
- { 252,-12755 }, { 253,-12755 }, { 254,-12755 }, { 255,-12755 }, { 256,-12755 },
- {   0,   0 }, {   0,1685 }, {   0,   0 }, {   0,1683 }, {   0,  12 },
- {   0,1681 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,-3226 }, { 126,   2 }, { 125,-3228 }, {   0,   0 },
- {   0,1556 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
-
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,-1677 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
-
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
-
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
-
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
-
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1298 }, {   1, 518 },
- {   2, 518 }, {   3, 518 }, {   4, 518 }, {   5, 518 }, {   6, 518 },
- {   7, 518 }, {   8, 518 }, {   9, 518 }, {  10, 518 }, {  11, 518 },
- {  12, 518 }, {  13, 518 }, {  14, 518 }, {  15, 518 }, {  16, 518 },
- {  17, 518 }, {  18, 518 }, {  19, 518 }, {  20, 518 }, {  21, 518 },
- {  22, 518 }, {  23, 518 }, {  24, 518 }, {  25, 518 }, {  26, 518 },
-
- {  27, 518 }, {  28, 518 }, {  29, 518 }, {  30, 518 }, {  31, 518 },
- {  32, 518 }, {  33, 518 }, {  34, 518 }, {  35, 518 }, {  36, 518 },
- {  37, 518 }, {  38, 518 }, {  39, 518 }, {  40, 518 }, {  41, 518 },
- {  42, 518 }, {  43, 518 }, {  44, 518 }, {  45,-1935 }, {  46, 518 },
- {  47, 518 }, {  48, 518 }, {  49, 518 }, {  50, 518 }, {  51, 518 },
- {  52, 518 }, {  53, 518 }, {  54, 518 }, {  55, 518 }, {  56, 518 },
- {  57, 518 }, {  58, 518 }, {  59, 518 }, {  60, 518 }, {  61, 518 },
- {  62, 518 }, {  63, 518 }, {  64, 518 }, {  65, 518 }, {  66, 518 },
- {  67, 518 }, {  68, 518 }, {  69, 518 }, {  70, 518 }, {  71, 518 },
- {  72, 518 }, {  73, 518 }, {  74, 518 }, {  75, 518 }, {  76, 518 },
-
- {  77, 518 }, {  78, 518 }, {  79, 518 }, {  80, 518 }, {  81, 518 },
- {  82, 518 }, {  83, 518 }, {  84, 518 }, {  85, 518 }, {  86, 518 },
- {  87, 518 }, {  88, 518 }, {  89, 518 }, {  90, 518 }, {  91, 518 },
- {  92, 518 }, {  93, 518 }, {  94, 518 }, {  95, 518 }, {  96, 518 },
- {  97, 518 }, {  98, 518 }, {  99, 518 }, { 100, 518 }, { 101, 518 },
- { 102, 518 }, { 103, 518 }, { 104, 518 }, { 105, 518 }, { 106, 518 },
- { 107, 518 }, { 108, 518 }, { 109, 518 }, { 110, 518 }, { 111, 518 },
- { 112, 518 }, { 113, 518 }, { 114, 518 }, { 115, 518 }, { 116, 518 },
- { 117, 518 }, { 118, 518 }, { 119, 518 }, { 120, 518 }, { 121, 518 },
- { 122, 518 }, { 123, 518 }, { 124, 518 }, { 125, 518 }, { 126, 518 },
-
- { 127, 518 }, { 128, 518 }, { 129, 518 }, { 130, 518 }, { 131, 518 },
- { 132, 518 }, { 133, 518 }, { 134, 518 }, { 135, 518 }, { 136, 518 },
- { 137, 518 }, { 138, 518 }, { 139, 518 }, { 140, 518 }, { 141, 518 },
- { 142, 518 }, { 143, 518 }, { 144, 518 }, { 145, 518 }, { 146, 518 },
- { 147, 518 }, { 148, 518 }, { 149, 518 }, { 150, 518 }, { 151, 518 },
- { 152, 518 }, { 153, 518 }, { 154, 518 }, { 155, 518 }, { 156, 518 },
- { 157, 518 }, { 158, 518 }, { 159, 518 }, { 160, 518 }, { 161, 518 },
- { 162, 518 }, { 163, 518 }, { 164, 518 }, { 165, 518 }, { 166, 518 },
- { 167, 518 }, { 168, 518 }, { 169, 518 }, { 170, 518 }, { 171, 518 },
- { 172, 518 }, { 173, 518 }, { 174, 518 }, { 175, 518 }, { 176, 518 },
-
- { 177, 518 }, { 178, 518 }, { 179, 518 }, { 180, 518 }, { 181, 518 },
- { 182, 518 }, { 183, 518 }, { 184, 518 }, { 185, 518 }, { 186, 518 },
- { 187, 518 }, { 188, 518 }, { 189, 518 }, { 190, 518 }, { 191, 518 },
- { 192, 518 }, { 193, 518 }, { 194, 518 }, { 195, 518 }, { 196, 518 },
- { 197, 518 }, { 198, 518 }, { 199, 518 }, { 200, 518 }, { 201, 518 },
- { 202, 518 }, { 203, 518 }, { 204, 518 }, { 205, 518 }, { 206, 518 },
- { 207, 518 }, { 208, 518 }, { 209, 518 }, { 210, 518 }, { 211, 518 },
- { 212, 518 }, { 213, 518 }, { 214, 518 }, { 215, 518 }, { 216, 518 },
- { 217, 518 }, { 218, 518 }, { 219, 518 }, { 220, 518 }, { 221, 518 },
- { 222, 518 }, { 223, 518 }, { 224, 518 }, { 225, 518 }, { 226, 518 },
-
- { 227, 518 }, { 228, 518 }, { 229, 518 }, { 230, 518 }, { 231, 518 },
- { 232, 518 }, { 233, 518 }, { 234, 518 }, { 235, 518 }, { 236, 518 },
- { 237, 518 }, { 238, 518 }, { 239, 518 }, { 240, 518 }, { 241, 518 },
- { 242, 518 }, { 243, 518 }, { 244, 518 }, { 245, 518 }, { 246, 518 },
- { 247, 518 }, { 248, 518 }, { 249, 518 }, { 250, 518 }, { 251, 518 },
- { 252, 518 }, { 253, 518 }, { 254, 518 }, { 255, 518 }, { 256, 518 },
- {   0,   0 }, {   0,1040 }, {   0,   0 }, {   0,1038 }, {   1,-13660 },
- {   2,-13660 }, {   3,-13660 }, {   4,-13660 }, {   5,-13660 }, {   6,-13660 },
- {   7,-13660 }, {   8,-13660 }, {   9,-13685 }, {  10,-13685 }, {  11,-13660 },
- {  12,-13660 }, {  13,-13685 }, {  14,-13660 }, {  15,-13660 }, {  16,-13660 },
-
- {  17,-13660 }, {  18,-13660 }, {  19,-13660 }, {  20,-13660 }, {  21,-13660 },
- {  22,-13660 }, {  23,-13660 }, {  24,-13660 }, {  25,-13660 }, {  26,-13660 },
- {  27,-13660 }, {  28,-13660 }, {  29,-13660 }, {  30,-13660 }, {  31,-13660 },
- {  32,-13685 }, {   0,  24 }, {   0,1004 }, {   0,   0 }, {  36,-13660 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-13685 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-13660 }, {  46,-13685 },
- {  47,-13685 }, {  48,-13660 }, {  49,-13660 }, {  50,-13660 }, {  51,-13660 },
- {  52,-13660 }, {  53,-13660 }, {  54,-13660 }, {  55,-13660 }, {  56,-13660 },
- {  57,-13660 }, {  58,-13660 }, {   0,   0 }, {   0,   0 }, {  61,-13685 },
- {   0,   0 }, {  63,-13660 }, {   0,   0 }, {  65,-13660 }, {  66,-13660 },
-
- {  67,-13660 }, {  68,-13660 }, {  69,-13660 }, {  70,-13660 }, {  71,-13660 },
- {  72,-13660 }, {  73,-13660 }, {  74,-13660 }, {  75,-13660 }, {  76,-13660 },
- {  77,-13660 }, {  78,-13660 }, {  79,-13660 }, {  80,-13660 }, {  81,-13660 },
- {  82,-13660 }, {  83,-13660 }, {  84,-13660 }, {  85,-13660 }, {  86,-13660 },
- {  87,-13660 }, {  88,-13660 }, {  89,-13660 }, {  90,-13660 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-13660 }, {   0,   0 },
- {  97,-13660 }, {  98,-13660 }, {  99,-13660 }, { 100, 518 }, { 101,-13660 },
- { 102,-13660 }, { 103,-13660 }, { 104,-13660 }, { 105,-13660 }, { 106,-13660 },
- { 107,-13660 }, { 108,-13660 }, { 109,-13660 }, { 110,-13660 }, { 111,-13660 },
- { 112,-13660 }, { 113,-13660 }, { 114,-13660 }, { 115,-13660 }, { 116,-13660 },
-
- { 117,-13660 }, { 118,-13660 }, { 119,-13660 }, { 120,-13660 }, { 121,-13660 },
- { 122,-13660 }, { 125, 518 }, { 124,-13685 }, { 125,-13685 }, { 126,-13685 },
- { 127,-13660 }, { 128,-13660 }, { 129,-13660 }, { 130,-13660 }, { 131,-13660 },
- { 132,-13660 }, { 133,-13660 }, { 134,-13660 }, { 135,-13660 }, { 136,-13660 },
- { 137,-13660 }, { 138,-13660 }, { 139,-13660 }, { 140,-13660 }, { 141,-13660 },
- { 142,-13660 }, { 143,-13660 }, { 144,-13660 }, { 145,-13660 }, { 146,-13660 },
- { 147,-13660 }, { 148,-13660 }, { 149,-13660 }, { 150,-13660 }, { 151,-13660 },
- { 152,-13660 }, { 153,-13660 }, { 154,-13660 }, { 155,-13660 }, { 156,-13660 },
- { 157,-13660 }, { 158,-13660 }, { 159,-13660 }, { 160,-13660 }, { 161,-13660 },
- { 162,-13660 }, { 163,-13660 }, { 164,-13660 }, { 165,-13660 }, { 166,-13660 },
-
- { 167,-13660 }, { 168,-13660 }, { 169,-13660 }, { 170,-13660 }, { 171,-13660 },
- { 172,-13660 }, { 173,-13660 }, { 174,-13660 }, { 175,-13660 }, { 176,-13660 },
- { 177,-13660 }, { 178,-13660 }, { 179,-13660 }, { 180,-13660 }, { 181,-13660 },
- { 182,-13660 }, { 183,-13660 }, { 184,-13660 }, { 185,-13660 }, { 186,-13660 },
- { 187,-13660 }, { 188,-13660 }, { 189,-13660 }, { 190,-13660 }, { 191,-13660 },
- { 192,-13660 }, { 193,-13660 }, { 194,-13660 }, { 195,-13660 }, { 196,-13660 },
- { 197,-13660 }, { 198,-13660 }, { 199,-13660 }, { 200,-13660 }, { 201,-13660 },
- { 202,-13660 }, { 203,-13660 }, { 204,-13660 }, { 205,-13660 }, { 206,-13660 },
- { 207,-13660 }, { 208,-13660 }, { 209,-13660 }, { 210,-13660 }, { 211,-13660 },
- { 212,-13660 }, { 213,-13660 }, { 214,-13660 }, { 215,-13660 }, { 216,-13660 },
-
- { 217,-13660 }, { 218,-13660 }, { 219,-13660 }, { 220,-13660 }, { 221,-13660 },
- { 222,-13660 }, { 223,-13660 }, { 224,-13660 }, { 225,-13660 }, { 226,-13660 },
- { 227,-13660 }, { 228,-13660 }, { 229,-13660 }, { 230,-13660 }, { 231,-13660 },
- { 232,-13660 }, { 233,-13660 }, { 234,-13660 }, { 235,-13660 }, { 236,-13660 },
- { 237,-13660 }, { 238,-13660 }, { 239,-13660 }, { 240,-13660 }, { 241,-13660 },
- { 242,-13660 }, { 243,-13660 }, { 244,-13660 }, { 245,-13660 }, { 246,-13660 },
- { 247,-13660 }, { 248,-13660 }, { 249,-13660 }, { 250,-13660 }, { 251,-13660 },
- { 252,-13660 }, { 253,-13660 }, { 254,-13660 }, { 255,-13660 }, { 256,-13660 },
- {   0,   0 }, {   0, 780 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
-
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45,-2453 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
-
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
-
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
-
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
-
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 522 },
-
- {   0,   0 }, {   0, 520 }, {   1,-14178 }, {   2,-14178 }, {   3,-14178 },
- {   4,-14178 }, {   5,-14178 }, {   6,-14178 }, {   7,-14178 }, {   8,-14178 },
- {   9, 260 }, {  10, 260 }, {  11,-14178 }, {  12,-14178 }, {  13, 260 },
- {  14,-14178 }, {  15,-14178 }, {  16,-14178 }, {  17,-14178 }, {  18,-14178 },
- {  19,-14178 }, {  20,-14178 }, {  21,-14178 }, {  22,-14178 }, {  23,-14178 },
- {  24,-14178 }, {  25,-14178 }, {  26,-14178 }, {  27,-14178 }, {  28,-14178 },
- {  29,-14178 }, {  30,-14178 }, {  31,-14178 }, {  32, 260 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-14178 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41, 260 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-14178 }, {  46,-14203 }, {  47,-14203 }, {  48,-14178 },
-
- {  49,-14178 }, {  50,-14178 }, {  51,-14178 }, {  52,-14178 }, {  53,-14178 },
- {  54,-14178 }, {  55,-14178 }, {  56,-14178 }, {  57,-14178 }, {  58,-14178 },
- {   0,   0 }, {   0,   0 }, {  61,-14203 }, {   0,   0 }, {  63,-14178 },
- {   0,   0 }, {  65,-14178 }, {  66,-14178 }, {  67,-14178 }, {  68,-14178 },
- {  69,-14178 }, {  70,-14178 }, {  71,-14178 }, {  72,-14178 }, {  73,-14178 },
- {  74,-14178 }, {  75,-14178 }, {  76,-14178 }, {  77,-14178 }, {  78,-14178 },
- {  79,-14178 }, {  80,-14178 }, {  81,-14178 }, {  82,-14178 }, {  83,-14178 },
- {  84,-14178 }, {  85,-14178 }, {  86,-14178 }, {  87,-14178 }, {  88,-14178 },
- {  89,-14178 }, {  90,-14178 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-14178 }, {   0,   0 }, {  97,-14178 }, {  98,-14178 },
-
- {  99,-14178 }, { 100,-14178 }, { 101,-14178 }, { 102,-14178 }, { 103,-14178 },
- { 104,-14178 }, { 105,-14178 }, { 106,-14178 }, { 107,-14178 }, { 108,-14178 },
- { 109,-14178 }, { 110,-14178 }, { 111,-14178 }, { 112,-14178 }, { 113,-14178 },
- { 114,-14178 }, { 115,-14178 }, { 116,-14178 }, { 117,-14178 }, { 118,-14178 },
- { 119,-14178 }, { 120,-14178 }, { 121,-14178 }, { 122,-14178 }, { 125, 260 },
- { 124,-14203 }, { 125, 260 }, { 126, 260 }, { 127,-14178 }, { 128,-14178 },
- { 129,-14178 }, { 130,-14178 }, { 131,-14178 }, { 132,-14178 }, { 133,-14178 },
- { 134,-14178 }, { 135,-14178 }, { 136,-14178 }, { 137,-14178 }, { 138,-14178 },
- { 139,-14178 }, { 140,-14178 }, { 141,-14178 }, { 142,-14178 }, { 143,-14178 },
- { 144,-14178 }, { 145,-14178 }, { 146,-14178 }, { 147,-14178 }, { 148,-14178 },
-
- { 149,-14178 }, { 150,-14178 }, { 151,-14178 }, { 152,-14178 }, { 153,-14178 },
- { 154,-14178 }, { 155,-14178 }, { 156,-14178 }, { 157,-14178 }, { 158,-14178 },
- { 159,-14178 }, { 160,-14178 }, { 161,-14178 }, { 162,-14178 }, { 163,-14178 },
- { 164,-14178 }, { 165,-14178 }, { 166,-14178 }, { 167,-14178 }, { 168,-14178 },
- { 169,-14178 }, { 170,-14178 }, { 171,-14178 }, { 172,-14178 }, { 173,-14178 },
- { 174,-14178 }, { 175,-14178 }, { 176,-14178 }, { 177,-14178 }, { 178,-14178 },
- { 179,-14178 }, { 180,-14178 }, { 181,-14178 }, { 182,-14178 }, { 183,-14178 },
- { 184,-14178 }, { 185,-14178 }, { 186,-14178 }, { 187,-14178 }, { 188,-14178 },
- { 189,-14178 }, { 190,-14178 }, { 191,-14178 }, { 192,-14178 }, { 193,-14178 },
- { 194,-14178 }, { 195,-14178 }, { 196,-14178 }, { 197,-14178 }, { 198,-14178 },
-
- { 199,-14178 }, { 200,-14178 }, { 201,-14178 }, { 202,-14178 }, { 203,-14178 },
- { 204,-14178 }, { 205,-14178 }, { 206,-14178 }, { 207,-14178 }, { 208,-14178 },
- { 209,-14178 }, { 210,-14178 }, { 211,-14178 }, { 212,-14178 }, { 213,-14178 },
- { 214,-14178 }, { 215,-14178 }, { 216,-14178 }, { 217,-14178 }, { 218,-14178 },
- { 219,-14178 }, { 220,-14178 }, { 221,-14178 }, { 222,-14178 }, { 223,-14178 },
- { 224,-14178 }, { 225,-14178 }, { 226,-14178 }, { 227,-14178 }, { 228,-14178 },
- { 229,-14178 }, { 230,-14178 }, { 231,-14178 }, { 232,-14178 }, { 233,-14178 },
- { 234,-14178 }, { 235,-14178 }, { 236,-14178 }, { 237,-14178 }, { 238,-14178 },
- { 239,-14178 }, { 240,-14178 }, { 241,-14178 }, { 242,-14178 }, { 243,-14178 },
- { 244,-14178 }, { 245,-14178 }, { 246,-14178 }, { 247,-14178 }, { 248,-14178 },
-
- { 249,-14178 }, { 250,-14178 }, { 251,-14178 }, { 252,-14178 }, { 253,-14178 },
- { 254,-14178 }, { 255,-14178 }, { 256,-14178 }, {   0,   0 }, {   0, 262 },
- {   0,  46 }, {   0, 260 }, {   0,   9 }, {   0, 258 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 257,  53 }, {   1,   0 },    };
-
-static const struct yy_trans_info *yy_start_state_list[13] =
-    {
-    &yy_transition[1],
-    &yy_transition[3],
-    &yy_transition[261],
-    &yy_transition[519],
-    &yy_transition[777],
-    &yy_transition[1035],
-    &yy_transition[1293],
-    &yy_transition[1551],
-    &yy_transition[1809],
-    &yy_transition[2067],
-    &yy_transition[2325],
-    &yy_transition[2583],
-    &yy_transition[2841],
-
+static const flex_int32_t yy_accept[185] =
+    {   0,
+        2,    2,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,   53,    2,    2,    6,    6,    2,    6,   51,
+       36,   36,   51,   51,   51,   15,   16,   51,   35,   35,
+       51,   32,   41,   51,   51,   51,   51,   51,   51,   51,
+       43,   51,   51,    7,   52,   14,   14,   14,   14,   10,
+       11,   11,    2,    2,    0,    0,    0,    5,    0,   49,
+       36,    0,   39,    0,    0,   40,    0,    0,   34,   33,
+       48,   49,    0,    0,   50,    0,    0,    0,    0,    0,
+       31,   38,    0,    0,    0,    0,    0,   13,   10,    0,
+        0,    0,    4,    5,   39,   40,    0,   50,   49,    0,
+
+        0,    0,    0,    0,   30,   21,   28,   31,   22,   19,
+       25,    0,   27,   31,   37,    0,   38,    0,    0,    0,
+        0,    1,    4,    4,    4,   48,    0,   42,    0,    0,
+        0,    0,    0,   21,   20,    0,    0,    0,    0,   17,
+       27,   18,   37,    0,    0,    0,    1,    1,    0,   47,
+       44,    0,   29,   23,    0,    0,    0,    8,    0,    1,
+       45,    0,   26,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,   12,    0,    0,   24,    0,    0,
+        0,    0,   46,    9
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5615,6 +6482,30 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
     1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
+static const yy_state_type yy_NUL_trans[185] =
+    {   0,
+       19,   19,   20,   20,   44,   44,   46,   46,   48,   48,
+       52,   52,    0,    0,    0,    0,    0,    0,    0,   59,
+        0,    0,    0,   62,   65,    0,    0,   59,    0,    0,
+       59,    0,    0,   73,   59,   59,   59,   59,   59,    0,
+        0,    0,    0,    0,    0,    0,    0,   86,   86,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,   59,    0,
+        0,   62,    0,   62,   65,    0,   65,   59,    0,    0,
+        0,    0,   73,   73,    0,   59,   59,   59,   59,   59,
+        0,    0,    0,    0,    0,   86,   86,    0,    0,    0,
+        0,    0,    0,    0,   62,   65,    0,   73,    0,   59,
+
+       59,   59,   59,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,  144,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,   59,   59,
+       59,   59,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,  144,  156,  158,    0,    0,   59,    0,
+        0,   59,    0,    0,    0,  156,  165,    0,  168,    0,
+        0,   59,    0,  156,  173,  174,  174,  168,   59,    0,
+        0,    0,  173,  179,    0,    0,   59,    0,  179,    0,
+       59,    0,    0,    0
+    } ;
+
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
  */
@@ -5715,9 +6606,9 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5719 "handlebars.lex.c"
+#line 6610 "handlebars.lex.c"
 
-#line 5721 "handlebars.lex.c"
+#line 6612 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -6000,7 +6891,7 @@ YY_DECL
 
 
 
-#line 6004 "handlebars.lex.c"
+#line 6895 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6014,30 +6905,23 @@ YY_DECL
 		 */
 		yy_bp = yy_cp;
 
-		yy_current_state = yy_start_state_list[yyg->yy_start];
+		yy_current_state = yyg->yy_start;
 yy_match:
-		{
-		const struct yy_trans_info *yy_trans_info;
-
-		YY_CHAR yy_c;
-
-		for ( yy_c = YY_SC_TO_UI(*yy_cp);
-		      (yy_trans_info = &yy_current_state[yy_c])->
-		yy_verify == yy_c;
-		      yy_c = YY_SC_TO_UI(*++yy_cp) )
+		while ( (yy_current_state = yy_nxt[yy_current_state][ YY_SC_TO_UI(*yy_cp) ]) > 0 )
 			{
-			yy_current_state += yy_trans_info->yy_nxt;
-
-			if ( yy_current_state[-1].yy_nxt )
+			if ( yy_accept[yy_current_state] )
 				{
 				yyg->yy_last_accepting_state = yy_current_state;
 				yyg->yy_last_accepting_cpos = yy_cp;
 				}
+
+			++yy_cp;
 			}
-		}
+
+		yy_current_state = -yy_current_state;
 
 yy_find_action:
-		yy_act = yy_current_state[-1].yy_nxt;
+		yy_act = yy_accept[yy_current_state];
 
 		YY_DO_BEFORE_ACTION;
 
@@ -6634,7 +7518,7 @@ YY_RULE_SETUP
 #line 494 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6638 "handlebars.lex.c"
+#line 7522 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -6918,12 +7802,17 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	char *yy_cp;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
-	yy_current_state = yy_start_state_list[yyg->yy_start];
+	yy_current_state = yyg->yy_start;
 
 	for ( yy_cp = yyg->yytext_ptr + YY_MORE_ADJ; yy_cp < yyg->yy_c_buf_p; ++yy_cp )
 		{
-		yy_current_state += yy_current_state[(*yy_cp ? YY_SC_TO_UI(*yy_cp) : 256)].yy_nxt;
-		if ( yy_current_state[-1].yy_nxt )
+		if ( *yy_cp )
+			{
+			yy_current_state = yy_nxt[yy_current_state][YY_SC_TO_UI(*yy_cp)];
+			}
+		else
+			yy_current_state = yy_NUL_trans[yy_current_state];
+		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
 			yyg->yy_last_accepting_cpos = yy_cp;
@@ -6944,16 +7833,12 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner; /* This var may be unused depending upon options. */
 	char *yy_cp = yyg->yy_c_buf_p;
 
-	int yy_c = 256;
-	const struct yy_trans_info *yy_trans_info;
-
-	yy_trans_info = &yy_current_state[(unsigned int) yy_c];
-	yy_current_state += yy_trans_info->yy_nxt;
-	yy_is_jam = (yy_trans_info->yy_verify != yy_c);
+	yy_current_state = yy_NUL_trans[yy_current_state];
+	yy_is_jam = (yy_current_state == 0);
 
 	if ( ! yy_is_jam )
 		{
-		if ( yy_current_state[-1].yy_nxt )
+		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
 			yyg->yy_last_accepting_cpos = yy_cp;
-- 
2.43.0


From 736f575c6008c033efcfd689bc462891bbf3c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:00 +0000
Subject: [PATCH 73/73] fix: data races in printing modules and in opening
 shared memory caches

---
 src/handlebars_cache_mmap.c     | 5 ++---
 src/handlebars_module_printer.c | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 7aca92a..fa2139d 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -75,7 +75,6 @@
 
 static const char head[] = "handlebars shared opcode cache";
 static const size_t PADDING = 1;
-static size_t page_size;
 
 struct handlebars_cache_mmap {
     //! Header
@@ -460,9 +459,9 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
 
     // Get page size
 #if defined(_SC_PAGESIZE)
-    page_size = (size_t) sysconf(_SC_PAGESIZE);
+    size_t page_size = (size_t) sysconf(_SC_PAGESIZE);
 #elif defined(PAGE_SIZE)
-    page_size = PAGE_SIZE;
+    size_t page_size = PAGE_SIZE;
 #else
 #error "Unable to query page size"
 #endif
diff --git a/src/handlebars_module_printer.c b/src/handlebars_module_printer.c
index e734a7b..2f29643 100644
--- a/src/handlebars_module_printer.c
+++ b/src/handlebars_module_printer.c
@@ -47,6 +47,7 @@ struct handlebars_string * handlebars_module_print(
     struct handlebars_string * buffer = handlebars_string_init(ctx, 1024);
     size_t program_guid = 0;
     size_t local_opcode_id = 0;
+    char ts[32];
     buffer = handlebars_string_asprintf_append(
         ctx,
         buffer,
@@ -65,7 +66,7 @@ struct handlebars_string * handlebars_module_print(
         module->addr,
         module->size,
         module->data_offset,
-        ctime(&module->ts),
+        ctime_r(&module->ts, ts),
         module->flags,
         module->program_count,
         module->opcode_count
-- 
2.43.0

