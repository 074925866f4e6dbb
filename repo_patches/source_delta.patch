From 4e8c9227282e768bcd835ffdb5c74a8b2eca6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:44 +0000
Subject: [PATCH 01/97] fix: reuse a deleted slot when a map or set has no
 empty slot left

Tombstones are not counted by the load factor, so inserting and deleting
distinct keys could leave the table without any empty slot and the next
lookup aborted with 'hash table is full'.
---
 runtime/nutils/hash.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 72d986b..d606532 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -82,6 +82,11 @@ static uint64_t find_hash_slot(uint64_t *hash_table, uint64_t capacity, uint8_t
 
     while (true) {
         if (attempts >= capacity) { // 防止无限循环
+            // 没有 empty slot, 但是存在 deleted slot 可以复用
+            if (first_deleted_index != -1) {
+                return first_deleted_index;
+            }
+
             // 哈希表已满，需要扩容
             assert(false && "hash table is full, need to grow");
             return -1;
-- 
2.43.0


From ebeae29b58aa45b875f2a79716c2d765db9d9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:44 +0000
Subject: [PATCH 02/97] fix: keep other members intact when deleting from a set

Deleting marked the slot as empty, which cut probe chains, decremented the
length even for absent values, and let the next add overwrite the key of
another member. Leave a tombstone and move the last key into the hole, as
map deletion does.
---
 runtime/nutils/set.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/set.c b/runtime/nutils/set.c
index 5349ee0..a242b2b 100644
--- a/runtime/nutils/set.c
+++ b/runtime/nutils/set.c
@@ -37,9 +37,8 @@ static bool _rt_set_add(n_set_t *m, void *key_ref) {
         key_index = m->length++;
         added = true;
     } else if (hash_value_deleted(hash_value)) {
-        m->length++;
+        key_index = m->length++;
         added = true;
-        key_index = extract_data_index(hash_value);
     } else {
         // 绝对的修改
         key_index = extract_data_index(hash_value);
@@ -183,7 +182,28 @@ void rt_set_delete(n_set_t *m, void *key_ref) {
         return;
     }
     uint64_t hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, key_ref);
-    uint64_t *hash_value = &m->hash_table[hash_index];
-    *hash_value &= 1ULL << HASH_DELETED; // 配置删除标志即可
+    uint64_t hash_value = m->hash_table[hash_index];
+    if (hash_value_empty(hash_value) || hash_value_deleted(hash_value)) {
+        return;
+    }
+
+    uint64_t key_index = extract_data_index(hash_value);
+    uint64_t last_key_index = m->length - 1;
+    rtype_t *key_rtype = rt_find_rtype(m->key_rtype_hash);
+    assert(key_rtype && "cannot find key_rtype by hash");
+    uint64_t key_size = key_rtype->storage_size;
+
+    // key_data 需要保持紧凑, 使用最后一个 key 填充被删除的 key
+    if (key_index != last_key_index) {
+        void *last_key_ref = m->key_data + last_key_index * key_size;
+        uint64_t last_hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash,
+                                                  last_key_ref);
+
+        rti_write_barrier_rtype(m->key_data + key_index * key_size, last_key_ref, key_rtype);
+        rt_set_data_index(m, last_hash_index, key_index);
+    }
+
+    m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    memset(m->key_data + last_key_index * key_size, 0, key_size);
     m->length--;
 }
-- 
2.43.0


From 1f5e337cfe8c643dd246918e0071cc544ef3c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:36 +0000
Subject: [PATCH 03/97] fix: do not share literal storage between f32 and f64
 constants

Float literals were pooled by bit pattern only, so an f64 literal with the
same bits as an earlier f32 literal (0.0) loaded eight bytes from a four
byte symbol and picked up whatever followed it.
---
 src/lower/lower.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 7c6d943..5848adb 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -10,6 +10,9 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
     char *key;
     if (imm->kind == TYPE_RAW_STRING) {
         key = str_connect("s:", imm->string_value);
+    } else if (imm->kind == TYPE_FLOAT32) {
+        // f32 与 f64 的 bit 可能相同(比如 0.0), 但是 symbol size 不同, 不能共用
+        key = str_connect("f32:", itoa(imm->int_value));
     } else {
         key = str_connect("f:", itoa(imm->int_value));
     }
-- 
2.43.0


From fe4dc0b856703ae5613f95cf355fa0683bc951d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:36 +0000
Subject: [PATCH 04/97] fix: keep string literals with embedded zero bytes
 distinct

Literals were pooled by their C string, so 'a\0b', 'a\0c' and 'a' shared
one object.
---
 src/lower/lower.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 5848adb..4c4728c 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -17,7 +17,13 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
         key = str_connect("f:", itoa(imm->int_value));
     }
 
-    asm_global_symbol_t *global_symbol = table_get(c->module->global_symbol_table, key);
+    // key 是 c string, 包含 '\0' 的 string 不能通过 key 区分, 不进行共享
+    bool shareable = imm->kind != TYPE_RAW_STRING || strlen(imm->string_value) == imm->strlen;
+
+    asm_global_symbol_t *global_symbol = NULL;
+    if (shareable) {
+        global_symbol = table_get(c->module->global_symbol_table, key);
+    }
     if (!global_symbol) {
         char *unique_name = label_ident_with_prefix(c->module, "g");
         global_symbol = NEW(asm_global_symbol_t);
@@ -43,7 +49,9 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
 
         symbol_table_set_raw_string(c->module, global_symbol->name, type_kind_new(TYPE_RAW_STRING), imm->strlen);
         slice_push(c->asm_symbols, global_symbol);
-        table_set(c->module->global_symbol_table, key, global_symbol);
+        if (shareable) {
+            table_set(c->module->global_symbol_table, key, global_symbol);
+        }
     }
 
     lir_symbol_var_t *symbol_var = NEW(lir_symbol_var_t);
-- 
2.43.0


From fb18bfdacc7e5b85d550bb97833fbd6a572f65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:36 +0000
Subject: [PATCH 05/97] fix: do not intern strings with embedded zero bytes

The intern pool is keyed by C string, so converting the byte vectors
97,0,98 and 97,0,99 to strings returned the same string.
---
 runtime/nutils/string.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 8cf1eaa..08292d2 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -19,15 +19,21 @@ n_string_t vec_to_string(n_vec_t *vec) {
 n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     DEBUGF("[string_new_with_pool] raw_string=%s, length=%lu, ptr=%p", (char *) raw_string, length, raw_string);
 
+    // pool 的 key 是 c string, 包含 '\0' 的字符串不能使用 pool
+    bool poolable = length == 0 || memchr(raw_string, '\0', length) == NULL;
+    n_string_t *pooled = NULL;
+
     // check const
-    mutex_lock(&const_str_pool_locker);
-    n_string_t *pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-    if (pooled && pooled->length == length) {
-        n_string_t result = *pooled;
+    if (poolable) {
+        mutex_lock(&const_str_pool_locker);
+        pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
+        if (pooled && pooled->length == length) {
+            n_string_t result = *pooled;
+            mutex_unlock(&const_str_pool_locker);
+            return result;
+        }
         mutex_unlock(&const_str_pool_locker);
-        return result;
     }
-    mutex_unlock(&const_str_pool_locker);
     DEBUGF("[string_new_with_pool] not match, raw %s, length %ld, map get %s", (char *) raw_string, length,
            pooled ? (char *) pooled->data : "-");
 
@@ -50,7 +56,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
            str.element_size, (char *) raw_string);
 
     // 小字符串入池,避免小字符串频繁分配
-    if (capacity <= 8) {
+    if (poolable && capacity <= 8) {
         n_string_t *pool_copy = malloc(sizeof(n_string_t));
         if (pool_copy != NULL) {
             *pool_copy = str;
-- 
2.43.0


From 5f85515aad0650f965a48590ec5aa1fc47756374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:36 +0000
Subject: [PATCH 06/97] fix: compare map and set keys by their full contents

Keys were compared as C strings, so struct and array keys and strings with
embedded zero bytes were only compared up to the first zero byte. Compare
strings by content, structs field by field (padding is undefined) and
everything else by its bytes.
---
 runtime/nutils/hash.h | 93 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 82 insertions(+), 11 deletions(-)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index d606532..39fdef0 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -3,6 +3,7 @@
 
 #include "nutils.h"
 #include "runtime/memory.h"
+#include "string.h"
 #include "utils/type.h"
 
 // hash table 的最高位(64)如果为 1 则表示其有值
@@ -40,21 +41,91 @@ static inline uint64_t extract_data_index(uint64_t hash_value) {
     return hash_value << 2 >> 2;
 }
 
+/**
+ * struct 字段之间的 padding 内容不确定, 需要按照字段进行处理，string 则按照内容进行处理
+ */
+static inline uint64_t key_part_count(rtype_t *rtype, uint64_t *part_size) {
+    *part_size = 0;
+    if (rtype->kind == TYPE_STRUCT && rtype->hashes_offset != -1) {
+        return rtype->length;
+    }
+
+    if (rtype->kind == TYPE_ARR && rtype->hashes_offset != -1) {
+        rtype_t *element_rtype = rt_find_rtype(((int64_t *) RTDATA(rtype->hashes_offset))[0]);
+        if (element_rtype && element_rtype->storage_size > 0) {
+            *part_size = element_rtype->storage_size;
+            return rtype->storage_size / element_rtype->storage_size;
+        }
+    }
+
+    return 0;
+}
+
+static inline rtype_t *key_part(rtype_t *rtype, uint64_t part_size, uint64_t index, uint64_t *offset) {
+    if (rtype->kind == TYPE_STRUCT) {
+        rtype_field_t *field = (rtype_field_t *) RTDATA(rtype->hashes_offset) + index;
+        *offset = field->offset;
+        return rt_find_rtype(field->hash);
+    }
+
+    *offset = part_size * index;
+    return rt_find_rtype(((int64_t *) RTDATA(rtype->hashes_offset))[0]);
+}
+
+static inline uint32_t key_hash_bytes(uint32_t hash, uint8_t *data, uint64_t size) {
+    for (uint64_t i = 0; i < size; ++i) {
+        hash ^= data[i];
+        hash *= 16777619;
+    }
+    return hash;
+}
+
+static uint32_t key_hash_value(uint32_t hash, rtype_t *rtype, uint8_t *key_ref) {
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *str = (n_string_t *) key_ref;
+        return key_hash_bytes(hash, (uint8_t *) str->data, str->length);
+    }
+
+    uint64_t part_size;
+    uint64_t count = key_part_count(rtype, &part_size);
+    if (count == 0) {
+        return key_hash_bytes(hash, key_ref, rtype->storage_size);
+    }
+
+    for (uint64_t i = 0; i < count; ++i) {
+        uint64_t offset;
+        rtype_t *part_rtype = key_part(rtype, part_size, i, &offset);
+        assert(part_rtype && "cannot find key part rtype by hash");
+        hash = key_hash_value(hash, part_rtype, key_ref + offset);
+    }
+    return hash;
+}
+
 static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
-    char *str = rtype_value_to_str(rtype, key_ref);
-    uint64_t result = hash_string(str);
-    free((void *) str);
-    return result;
+    return key_hash_value(2166136261u, rtype, key_ref);
 }
 
-static inline bool key_equal(rtype_t *rtype, void *actual, void *expect) {
+static bool key_equal(rtype_t *rtype, void *actual, void *expect) {
     DEBUGF("[key_equal] actual=%p, expect=%p", actual, expect);
-    char *actual_str = rtype_value_to_str(rtype, actual);
-    char *expect_str = rtype_value_to_str(rtype, expect);
-    bool result = str_equal(actual_str, expect_str);
-    free((void *) actual_str);
-    free((void *) expect_str);
-    return result;
+    if (rtype->kind == TYPE_STRING) {
+        return string_ee(actual, expect);
+    }
+
+    uint64_t part_size;
+    uint64_t count = key_part_count(rtype, &part_size);
+    if (count == 0) {
+        return memcmp(actual, expect, rtype->storage_size) == 0;
+    }
+
+    for (uint64_t i = 0; i < count; ++i) {
+        uint64_t offset;
+        rtype_t *part_rtype = key_part(rtype, part_size, i, &offset);
+        assert(part_rtype && "cannot find key part rtype by hash");
+        if (!key_equal(part_rtype, (uint8_t *) actual + offset, (uint8_t *) expect + offset)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /**
-- 
2.43.0


From 2c4c5953737975a1d0fda1a4a641e6e8cd48a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:49 +0000
Subject: [PATCH 07/97] fix: wake every coroutine that awaits the same future

---
 runtime/processor.c | 14 +++++++++++---
 runtime/runtime.h   |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/processor.c b/runtime/processor.c
index b88fff1..f1d22c2 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -278,9 +278,15 @@ NO_OPTIMIZE static void coroutine_wrapper() {
     mutex_lock(&co->dead_locker);
     if (co->await_co) {
         coroutine_t *await_co = co->await_co;
-
-        co_set_status(p, await_co, CO_STATUS_RUNNABLE);
-        rt_linked_fixalloc_push(&await_co->p->runnable_list, await_co);
+        while (await_co) {
+            // push 之后 await_co 可能立刻在其他线程中运行，所以需要提前读取 next
+            coroutine_t *await_next = await_co->await_next;
+            await_co->await_next = NULL;
+
+            co_set_status(p, await_co, CO_STATUS_RUNNABLE);
+            rt_linked_fixalloc_push(&await_co->p->runnable_list, await_co);
+            await_co = await_next;
+        }
     } else {
         if (co->has_error) {
             coroutine_dump_error(co);
@@ -749,6 +755,7 @@ coroutine_t *rt_coroutine_new(void *fn, int64_t flag, n_future_t *fu, void *arg)
     co->error = (n_interface_t){0};
     co->traces = (n_vec_t){0};
     co->await_co = NULL;
+    co->await_next = NULL;
     co->aco.inited = 0; // 标记为为初始化
 
     return co;
@@ -1046,6 +1053,7 @@ void rt_coroutine_await(coroutine_t *target_co) {
         mutex_unlock(&target_co->dead_locker);
         return;
     }
+    src_co->await_next = target_co->await_co;
     target_co->await_co = src_co;
     co_set_status(src_co->p, src_co, CO_STATUS_WAITING);
     mutex_unlock(&target_co->dead_locker);
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 9090fe8..35ea068 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -395,6 +395,7 @@ struct coroutine_t {
     n_future_t *future;
 
     struct coroutine_t *await_co; // 可能为 null, 如果不为 null 说明该 co 在等待当前 co exit
+    struct coroutine_t *await_next; // 多个 co 等待同一个 co exit 时，通过 await_next 链接
     mutex_t dead_locker;
 
     // 当前 coroutine stack 颜色是否为黑色, 黑色说明当前 goroutine stack 已经扫描完毕
-- 
2.43.0


From 9ce1fae4d426778a954f3a5bd2f2b22145451887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:10 +0000
Subject: [PATCH 08/97] fix: give a select receive on a closed channel a zero
 message

---
 runtime/rt_chan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index d36bee0..4e78634 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -693,6 +693,8 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
         if (!case_success) {
             goto SCLOSE;
         }
+    } else if (!case_success) {
+        goto RCLOSE;
     }
 
     selunlock(cases, lockorder, cases_count);
@@ -718,6 +720,9 @@ RECV:
 
 RCLOSE:
     selunlock(cases, lockorder, cases_count);
+    if (cas->msg_ptr) {
+        memset(cas->msg_ptr, 0, c->msg_size);
+    }
     case_success = false;
     cases[casi].chan->successful = false;
     goto RETC;
-- 
2.43.0


From 3875ec6883e2eaa65a85c04450a588a892709b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:51 +0000
Subject: [PATCH 09/97] fix: enqueue and dequeue select cases in lock order

---
 runtime/rt_chan.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index 4e78634..2079b5c 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -612,7 +612,7 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     nextp = &co->waiting;
     for (int16_t i = 0; i < cases_count; i++) {
-        casi = i;
+        casi = lockorder[i];
         cas = &cases[casi];
         c = cas->chan;
 
@@ -664,14 +664,15 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     scase *k = NULL;
     for (int16_t i = 0; i < cases_count; i++) {
-        k = &cases[i];
+        int16_t o = lockorder[i];
+        k = &cases[o];
         if (lc == lclist) {
-            casi = i;
+            casi = o;
             cas = k;
             case_success = lclist->success;
         } else {
             c = k->chan;
-            if (i < sends_count) {
+            if (o < sends_count) {
                 waitq_remove(&c->sendq, lclist);
             } else {
                 waitq_remove(&c->recvq, lclist);
-- 
2.43.0


From 68bb508c4be165a69f5fe8e4d20c3162494e6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:44 +0000
Subject: [PATCH 10/97] fix: keep the buffer address of a select receive
 variable stored in place

---
 src/linear.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index 95dd3b1..b5b574c 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1871,7 +1871,9 @@ static void linear_select(module_t *m, ast_select_stmt_t *select_stmt) {
         lir_operand_t *recv_target;
         if (select_case->recv_var) {
             recv_target = linear_var_decl(m, select_case->recv_var);
-            OP_PUSH(lir_op_nop_def(recv_target));
+            if (select_case->recv_var->type.storage_kind != STORAGE_KIND_IND) {
+                OP_PUSH(lir_op_nop_def(recv_target));
+            }
         }
 
         // 从 on_call 中提取 chan 参数 mov 到 scase_target 中
-- 
2.43.0


From a5aec562ba843ed0607af8a0c514666955f0fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:59 +0000
Subject: [PATCH 11/97] fix: sign-extend the dividend of a signed integer
 division

---
 src/binary/encoding/amd64/opcode.c | 10 ++++++++++
 src/native/amd64.c                 | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index be7573c..0125e8e 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -248,6 +248,12 @@ amd64_opcode_inst_t syscall_inst = {"syscall_inst", "syscall_inst", 0, {0x0F, 0x
 // TODO 什么时候使用 near 什么时候使用 far?
 amd64_opcode_inst_t ret = {"ret", "ret", 0, {0xC3}, {}, {}};
 
+// 有符号除法的被除数扩展
+amd64_opcode_inst_t cbw = {"cbw", "cbw", 0x66, {0x98}, {}, {}};
+amd64_opcode_inst_t cwd = {"cwd", "cwd", 0x66, {0x99}, {}, {}};
+amd64_opcode_inst_t cdq = {"cdq", "cdq", 0, {0x99}, {}, {}};
+amd64_opcode_inst_t cqo = {"cqo", "cqo", 0, {0x48, 0x99}, {}, {}};
+
 amd64_opcode_inst_t push_r64 = {"push", "push", 0, {0x50}, {}, {{OPERAND_TYPE_R64, ENCODING_TYPE_OPCODE_PLUS}}};
 
 amd64_opcode_inst_t push_rm64 = {"push", "push", 0, {0xFF}, {OPCODE_EXT_SLASH6}, {{OPERAND_TYPE_RM64, ENCODING_TYPE_MODRM_RM}}};
@@ -553,6 +559,10 @@ void amd64_opcode_init() {
     // 收集所有指令，进行注册
     opcode_tree_build(&lea_r64_m);
     opcode_tree_build(&syscall_inst);
+    opcode_tree_build(&cbw);
+    opcode_tree_build(&cwd);
+    opcode_tree_build(&cdq);
+    opcode_tree_build(&cqo);
     opcode_tree_build(&call_rm64);
     opcode_tree_build(&call_rel32);
     opcode_tree_build(&jmp_rel8);
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 0a8c791..e9e5159 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -396,6 +396,16 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         amd64_asm_operand_t *second = lir_operand_trans_amd64(c, op, op->second);
 
         if (op->code == LIR_OPCODE_SDIV) {
+            // 被除数的高位部分是符号扩展
+            char *extend = "cqo";
+            if (second->size == BYTE) {
+                extend = "cbw";
+            } else if (second->size == WORD) {
+                extend = "cwd";
+            } else if (second->size == DWORD) {
+                extend = "cdq";
+            }
+            slice_push(operations, AMD64_INST(extend));
             slice_push(operations, AMD64_INST("idiv", second));
         } else {
             slice_push(operations, AMD64_INST("div", second));
-- 
2.43.0


From f993df661cb4e49409a12e6a9236ec49788271fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:12 +0000
Subject: [PATCH 12/97] fix: keep accesses to global variables in order when
 scheduling instructions

---
 src/schedule.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/schedule.c b/src/schedule.c
index aec24b7..3a41bd6 100644
--- a/src/schedule.c
+++ b/src/schedule.c
@@ -28,15 +28,19 @@ static reg_t *reg_alloc_find(reg_t *reg) {
     return reg_find(alloc_type, reg->index, size);
 }
 
+/**
+ * 操作数是否位于内存中，包括间接寻址与全局变量
+ */
+static bool schedule_is_mem_operand(lir_operand_t *operand) {
+    return operand && (operand->assert_type == LIR_OPERAND_INDIRECT_ADDR || operand->assert_type == LIR_OPERAND_SYMBOL_VAR);
+}
+
 /**
  * 判断指令是否是内存读取操作
  */
 bool schedule_is_mem_read(lir_op_t *op) {
-    // 从 indirect_addr 读取数据
-    if (op->first && op->first->assert_type == LIR_OPERAND_INDIRECT_ADDR) {
-        return true;
-    }
-    if (op->second && op->second->assert_type == LIR_OPERAND_INDIRECT_ADDR) {
+    // 从 indirect_addr 或全局变量读取数据
+    if (schedule_is_mem_operand(op->first) || schedule_is_mem_operand(op->second)) {
         return true;
     }
     // CALL 和 RT_CALL 可能读取内存
@@ -50,8 +54,8 @@ bool schedule_is_mem_read(lir_op_t *op) {
  * 判断指令是否是内存写入操作
  */
 bool schedule_is_mem_write(lir_op_t *op) {
-    // 写入 indirect_addr
-    if (op->output && op->output->assert_type == LIR_OPERAND_INDIRECT_ADDR) {
+    // 写入 indirect_addr 或全局变量
+    if (schedule_is_mem_operand(op->output)) {
         return true;
     }
     // CALL 和 RT_CALL 可能写入内存
-- 
2.43.0


From 112df2e46fa3f24bf604ac63ec4711f94c9ddcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:44 +0000
Subject: [PATCH 13/97] fix: keep the remainder of an 8-bit division in an
 allocatable register

---
 src/lower/amd64.c  | 13 +++----------
 src/native/amd64.c | 12 ++++++++++--
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/lower/amd64.c b/src/lower/amd64.c
index 653bacb..5b4b7aa 100644
--- a/src/lower/amd64.c
+++ b/src/lower/amd64.c
@@ -256,19 +256,12 @@ static linked_t *amd64_lower_factor(closure_t *c, lir_op_t *op) {
 
         lir_operand_t *dividend_operand = lir_regs_operand(2, al_operand->value, ah_operand->value);
 
-        // 根据操作类型选择结果寄存器
-        lir_operand_t *result_operand;
-        if (op->code == LIR_OPCODE_UREM || op->code == LIR_OPCODE_SREM) {
-            // 余数在 AH
-            result_operand = ah_operand; // ah 寄存器不太能用
-        } else {
-            // 商在 AL
-            result_operand = al_operand;
-        }
+        // 商在 AL, 余数在 AH, ah 寄存器无法参与寄存器分配，所以 native 阶段会将余数移动到 AL
+        lir_operand_t *result_operand = al_operand;
 
         // 执行8位除法，被除数在AX，除数是8位操作数
         // output 必须是实际结果所在的寄存器，否则寄存器分配器会认为 RAX 空闲而提前覆盖
-        linked_push(list, lir_op_new(op_code, dividend_operand, op->second, result_operand));
+        linked_push(list, lir_op_new(op->code, dividend_operand, op->second, result_operand));
         linked_push(list, lir_op_move(op->output, result_operand));
     } else {
         // 16位及以上的除法处理（原有逻辑）
diff --git a/src/native/amd64.c b/src/native/amd64.c
index e9e5159..54f00a3 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -390,12 +390,12 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         assertf(op->second->assert_type != LIR_OPERAND_IMM, "div op second cannot imm");
 
         reg_t *output_reg = op->output->value;
-        assertf(output_reg->index == rax->index || output_reg->index == rdx->index || output_reg->index == ah->index,
+        assertf(output_reg->index == rax->index || output_reg->index == rdx->index,
                 "div op output reg must rax/rdx");
 
         amd64_asm_operand_t *second = lir_operand_trans_amd64(c, op, op->second);
 
-        if (op->code == LIR_OPCODE_SDIV) {
+        if (op->code == LIR_OPCODE_SDIV || op->code == LIR_OPCODE_SREM) {
             // 被除数的高位部分是符号扩展
             char *extend = "cqo";
             if (second->size == BYTE) {
@@ -410,6 +410,12 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         } else {
             slice_push(operations, AMD64_INST("div", second));
         }
+
+        if (op->code == LIR_OPCODE_SREM || op->code == LIR_OPCODE_UREM) {
+            // 8 位除法的余数在 AH
+            assert(second->size == BYTE);
+            slice_push(operations, AMD64_INST("mov", AMD64_REG(al), AMD64_REG(ah)));
+        }
         return operations;
     }
 
@@ -1583,6 +1589,8 @@ amd64_native_fn amd64_native_table[] = {
     [LIR_OPCODE_SUB] = amd64_native_sub,
     [LIR_OPCODE_UDIV] = amd64_native_div,
     [LIR_OPCODE_SDIV] = amd64_native_div,
+    [LIR_OPCODE_UREM] = amd64_native_div,
+    [LIR_OPCODE_SREM] = amd64_native_div,
     [LIR_OPCODE_MUL] = amd64_native_mul,
     // 逻辑相关运算符
     [LIR_OPCODE_SGT] = amd64_native_scc,
-- 
2.43.0


From d7a3a5906f984f8da8b9aad8491807bcd3036a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:44 +0000
Subject: [PATCH 14/97] fix: sign-extend narrow integers before converting them
 to a float

---
 src/native/amd64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 54f00a3..6457c75 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -885,8 +885,8 @@ static slice_t *amd64_native_sitof(closure_t *c, lir_op_t *op) {
         reg_t *first_reg = first->value;
         amd64_asm_operand_t *new_first = AMD64_REG(reg_select(first_reg->index, TYPE_UINT32));
 
-        // 清空寄存器的高位部分
-        slice_push(operations, AMD64_INST("movzx", new_first, first));
+        // 高位部分使用符号位填充
+        slice_push(operations, AMD64_INST("movsx", new_first, first));
         first = new_first;
     }
 
-- 
2.43.0


From acfc12f03b3dac206425240d2189bb8a4d4fab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:35 +0000
Subject: [PATCH 15/97] fix: convert 64-bit unsigned integers to floats without
 losing the low bit

---
 src/native/amd64.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 6457c75..d21784a 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -942,15 +942,26 @@ static slice_t *amd64_native_uitof(closure_t *c, lir_op_t *op) {
             slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
         }
     } else {
-        // 64位：统一使用右移-转换-乘2
+        char *convert = output->size == DWORD ? "cvtsi2ss" : "cvtsi2sd";
+        char *half = label_ident_with_unique("uitof_half");
+        char *even = label_ident_with_unique("uitof_even");
+        char *end = label_ident_with_unique("uitof_end");
+
+        // 最高位为 0 时可以按有符号数直接转换
+        slice_push(operations, AMD64_INST("test", first, first));
+        slice_push(operations, AMD64_INST("jl", AMD64_SYMBOL(half, true)));
+        slice_push(operations, AMD64_INST(convert, output, first));
+        slice_push(operations, AMD64_INST("jmp", AMD64_SYMBOL(end, true)));
+
+        // 否则使用右移-转换-乘2, 移出的低位需要保留用于舍入
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(half, true)));
         slice_push(operations, AMD64_INST("shr", first, AMD64_UINT8(1)));
-        if (output->size == DWORD) {
-            slice_push(operations, AMD64_INST("cvtsi2ss", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        } else {
-            slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        }
+        slice_push(operations, AMD64_INST("jae", AMD64_SYMBOL(even, true)));
+        slice_push(operations, AMD64_INST("or", first, AMD64_UINT32(1)));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(even, true)));
+        slice_push(operations, AMD64_INST(convert, output, first));
+        slice_push(operations, AMD64_INST("add", output, output));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(end, true)));
     }
 
     return operations;
-- 
2.43.0


From ed20e9837d265b38a0452d7e2f78da094b6d9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:31 +0000
Subject: [PATCH 16/97] fix: leave integer constants that exceed 64 bits to
 run-time arithmetic

---
 src/semantic/analyzer.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index e0c5840..83c5522 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -1763,29 +1763,33 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
                 }
             } else {
                 // 整数运算
+                errno = 0;
                 int64_t left_val = strtoll(left_literal->value, NULL, 0);
                 int64_t right_val = strtoll(right_literal->value, NULL, 0);
                 int64_t result = 0;
+                if (errno == ERANGE) {
+                    return; // 超出 int64 的字面量(uint64)不进行折叠
+                }
 
                 switch (binary_expr->op) {
                     case AST_OP_ADD:
-                        result = left_val + right_val;
+                        can_fold = !__builtin_add_overflow(left_val, right_val, &result);
                         break;
                     case AST_OP_SUB:
-                        result = left_val - right_val;
+                        can_fold = !__builtin_sub_overflow(left_val, right_val, &result);
                         break;
                     case AST_OP_MUL:
-                        result = left_val * right_val;
+                        can_fold = !__builtin_mul_overflow(left_val, right_val, &result);
                         break;
                     case AST_OP_DIV:
-                        if (right_val != 0) {
+                        if (right_val != 0 && !(left_val == INT64_MIN && right_val == -1)) {
                             result = left_val / right_val;
                         } else {
                             can_fold = false; // 除零错误，不进行折叠
                         }
                         break;
                     case AST_OP_REM:
-                        if (right_val != 0) {
+                        if (right_val != 0 && !(left_val == INT64_MIN && right_val == -1)) {
                             result = left_val % right_val;
                         } else {
                             can_fold = false;
@@ -1801,10 +1805,16 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
                         result = left_val ^ right_val;
                         break;
                     case AST_OP_LSHIFT:
-                        result = left_val << right_val;
+                        can_fold = right_val >= 0 && right_val < 64 && left_val >= 0 && left_val <= (INT64_MAX >> right_val);
+                        if (can_fold) {
+                            result = left_val << right_val;
+                        }
                         break;
                     case AST_OP_RSHIFT:
-                        result = left_val >> right_val;
+                        can_fold = right_val >= 0 && right_val < 64;
+                        if (can_fold) {
+                            result = left_val >> right_val;
+                        }
                         break;
                     default:
                         can_fold = false;
@@ -1859,8 +1869,12 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
                     }
                 } else {
                     // 整数一元运算
+                    errno = 0;
                     int64_t operand_val = strtoll(operand_literal->value, NULL, 0);
                     int64_t result = 0;
+                    if (errno == ERANGE) {
+                        return; // 超出 int64 的字面量(uint64)不进行折叠
+                    }
 
                     switch (unary_expr->op) {
                         case AST_OP_NEG:
-- 
2.43.0


From 02fe40d2aeca71be55576c1ace62bd2b4175a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:48 +0000
Subject: [PATCH 17/97] fix: pop every definition of a block when renaming SSA
 variables

---
 src/ssa.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index a17e3a8..72c08df 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -642,10 +642,6 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         slice_t *vars = extract_var_operands(op, FLAG(LIR_FLAG_DEF));
         for (int i = 0; i < vars->count; ++i) {
             lir_var_t *var = vars->take[i];
-            if (!table_exist(c->ssa_globals_table, var->old)) {
-                continue;
-            }
-
             // pop stack
             var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
             assertf(stack, "var %s not found in stack table", var->old);
-- 
2.43.0


From 4182fc5b1a9563df447cb0150b6d89f67c44d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:17 +0000
Subject: [PATCH 18/97] fix: allow any number of assignments to one variable

---
 src/ssa.c | 17 ++++++++++-------
 src/ssa.h |  5 +++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 72c08df..23fc275 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -542,7 +542,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
         assert(stack);
         if (stack->count > 0) {
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
     }
@@ -570,7 +570,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
 
             var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
             assert(stack);
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->count > 0 ? stack->numbers[stack->count - 1] : 0;
             ssa_rename_var(var, number);
         }
 
@@ -578,7 +578,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         for (int i = 0; i < vars->count; ++i) {
             lir_var_t *var = vars->take[i];
 
-            uint8_t number = ssa_new_var_number(var, var_number_table, stack_table); // 新增定义
+            uint64_t number = ssa_new_var_number(var, var_number_table, stack_table); // 新增定义
             ssa_rename_var(var, number);
         }
 
@@ -591,7 +591,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
         assert(stack);
         if (stack->count > 0) {
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
     }
@@ -619,7 +619,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
             assert(stack);
             assert(stack->count > 0);
 
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
 
             op_node = op_node->succ;
@@ -669,16 +669,19 @@ uint64_t ssa_new_var_number(lir_var_t *var, struct sc_map_s64 *var_number_table,
     value += 1;
 
     sc_map_put_s64(var_number_table, var->old, value + 1);
+    if (stack->count == stack->capacity) {
+        stack->capacity = stack->capacity ? stack->capacity * 2 : 8;
+        stack->numbers = realloc(stack->numbers, stack->capacity * sizeof(uint64_t));
+    }
     stack->numbers[stack->count++] = result;
 
     return result;
 }
 
 void ssa_rename_var(lir_var_t *var, uint64_t number) {
-    assert(number < UINT8_MAX);
     // 1: '\0'
     // 2: '_12'
-    int64_t size = strlen(var->ident) + 10 + 3;
+    int64_t size = strlen(var->ident) + 20 + 3;
     char *buf = mallocz(size);
     snprintf(buf, size, "%s.s%ld", var->ident, number);
     var->ident = buf; // 已经分配在了堆中，需要手动释放了
diff --git a/src/ssa.h b/src/ssa.h
index 16af5af..c402d3d 100644
--- a/src/ssa.h
+++ b/src/ssa.h
@@ -23,8 +23,9 @@
 
 
 typedef struct {
-    uint8_t numbers[UINT8_MAX];
-    uint8_t count;
+    uint64_t *numbers;
+    uint64_t capacity;
+    uint64_t count;
 } var_number_stack;
 
 void ssa(closure_t *c);
-- 
2.43.0


From 241ac197134d85282e277d44c49faea0b1154bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:42 +0000
Subject: [PATCH 19/97] fix: do not read names such as v8, e32 or meturn as
 keywords

---
 src/syntax/scanner.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/syntax/scanner.c b/src/syntax/scanner.c
index 4f88141..b761b3d 100644
--- a/src/syntax/scanner.c
+++ b/src/syntax/scanner.c
@@ -763,7 +763,7 @@ static token_type_t scanner_ident(char *word, int length) {
                 case 'n':
                     return scanner_rest(word, length, 2, 2, "um", TOKEN_ENUM);
             }
-
+            break;
         case 'f': {
             // 'fx' is deliberately absent: fx mode is not exposed yet, so fx stays a plain ident
             // until the mode is redesigned. The TOKEN_FX parser/infer paths remain, just unreachable.
@@ -881,6 +881,7 @@ static token_type_t scanner_ident(char *word, int length) {
                 case 'o': // void
                     return scanner_rest(word, length, 2, 2, "id", TOKEN_VOID);
             }
+            break;
         }
         case 'u': {
             switch (word[1]) {
@@ -911,6 +912,7 @@ static token_type_t scanner_ident(char *word, int length) {
                     }
                 }
             }
+            break;
         }
         case 'r': {
             return scanner_rest(word, length, 1, 5, "eturn", TOKEN_RETURN);
-- 
2.43.0


From 7f17353da60eca3e46c992276169ce020ff7caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:14 +0000
Subject: [PATCH 20/97] fix: let values without a further use give up their
 register

---
 src/register/allocate.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/register/allocate.c b/src/register/allocate.c
index 8c0dcfc..7e5a0d7 100644
--- a/src/register/allocate.c
+++ b/src/register/allocate.c
@@ -289,6 +289,11 @@ static void spill_interval(closure_t *c, allocate_t *a, interval_t *i, int befor
     if (before_pos > i->first_range->from) {
         // spill current before current first use position
         split_pos = interval_find_optimal_split_pos(c, i, before_pos);
+        // split_pos 是 i 的使用点时, 该指令的 output 依旧需要保留在寄存器中, 只能在使用点之后切割
+        if (before_pos % 2 == 1 && split_pos == before_pos - 1 &&
+            interval_next_use_position(i, split_pos - 1) == split_pos) {
+            split_pos = before_pos;
+        }
         child = interval_split_at(c, i, split_pos);
     }
 
@@ -582,6 +587,9 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
                 pos = 0;
             } else {
                 pos = interval_next_use_position(select, first_from);
+                if (pos == 0) {
+                    pos = INT32_MAX; // select 后续没有使用点, 寄存器可以让给 current
+                }
             }
 
 
@@ -610,6 +618,9 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
             SET_BLOCK_POS(select->assigned, pos);
         } else {
             pos = interval_next_use_position(select, first_from);
+            if (pos == 0) {
+                pos = INT32_MAX;
+            }
             SET_USE_POS(select->assigned, pos);
         }
     }
-- 
2.43.0


From 22abc162f15c5cc037d91e60687b9be63cb177ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:54 +0000
Subject: [PATCH 21/97] fix: put the operand-size prefix of xorpd before the
 REX prefix

---
 src/binary/encoding/amd64/opcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index 0125e8e..563435e 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -440,7 +440,7 @@ amd64_opcode_inst_t shr_rm64_imm8 = {"shr", "shr", 0, {0xC1}, {OPCODE_EXT_REX_W,
 
 // float ------------------------------------------------------------------------------------------------------
 // float xor ------------------------------------------------------------------------------------------------------
-amd64_opcode_inst_t xorpd_xmm1_xmm2m128 = {"xor", "xorpd", 0, {0x66, 0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S64, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M64, ENCODING_TYPE_MODRM_RM}}};
+amd64_opcode_inst_t xorpd_xmm1_xmm2m128 = {"xor", "xorpd", 0x66, {0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S64, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M64, ENCODING_TYPE_MODRM_RM}}};
 amd64_opcode_inst_t xorps_xmm1_xmm2m128 = {"xor", "xorps", 0, {0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S32, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M32, ENCODING_TYPE_MODRM_RM}}};
 
 
-- 
2.43.0


From 7843e23ebcebcf6ebfb2020f3a00be48de8f8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:50 +0000
Subject: [PATCH 22/97] fix: allocate a register when a value is needed right
 at its start

A value whose first use that must be in a register is at its own start has
no position left at which it could be split.  The allocator spilled such a
value when the only free register was free for a short time, and then stopped
on an assertion.
---
 src/register/allocate.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/register/allocate.c b/src/register/allocate.c
index 7e5a0d7..33a5cb4 100644
--- a/src/register/allocate.c
+++ b/src/register/allocate.c
@@ -497,7 +497,14 @@ bool allocate_free_reg(closure_t *c, allocate_t *a) {
     // 且不是 must kind 需求,可以不分配寄存器
     // 虽然有可用的空闲寄存器，但是空闲时间过短，此时直接进行溢出
     use_pos_t *first_use = first_use_pos(a->current, 0);
-    if (first_use->kind != ALLOC_KIND_MUST && free_pos[reg_id] - a->current->first_range->from < ALLOC_USE_MIN) {
+    use_pos_t *must_use = interval_must_reg_pos(a->current);
+    bool must_at_start = must_use && must_use->value <= a->current->first_range->from + 1; // 没有位置可以切割
+    if (must_at_start && free_pos[reg_id] <= must_use->value) {
+        return false;
+    }
+
+    if (first_use->kind != ALLOC_KIND_MUST && !must_at_start &&
+        free_pos[reg_id] - a->current->first_range->from < ALLOC_USE_MIN) {
         spill_interval(c, a, a->current, 0);
         linked_push(a->handled, a->current);
         return true;
@@ -575,7 +582,7 @@ bool allocate_block_reg(closure_t *c, allocate_t *a) {
         } else {
             // 找一个大于 current first use_position 的位置(可以为0，0 表示没找到)
             // 查找 active interval 的下一个使用位置,用来判断其空闲时长
-            assert(a->current->first_range->from > select->first_range->from);
+            assert(a->current->first_range->from >= select->first_range->from);
 
             int pos = 0;
             // 如果 select->first_from 和 first from 的差值 < 1, 则后续 split 分配会异常, 无法在 first_from 之前讲 select 进行 split
-- 
2.43.0


From b05929db30826d8576a110433f2d1cf059ebe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:29 +0000
Subject: [PATCH 23/97] fix: keep saved registers inside the stack frame of a
 function

Registers saved with push moved the stack pointer below the frame that the
rest of the code generator assumes.  An odd number of them left the stack
misaligned at calls, stack arguments overwrote them, and the pointer map of
the frame no longer matched the slots the collector scans.
---
 src/native/amd64.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index d21784a..f00f52d 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -1357,15 +1357,16 @@ static slice_t *amd64_native_fn_begin(closure_t *c, lir_op_t *op) {
         slice_push(operations, AMD64_INST("sub", AMD64_REG(rsp), AMD64_UINT32(offset)));
     }
 
-    // 保存 callee-saved 寄存器
+    // 保存 callee-saved 寄存器, 位于 call args 之上，local var 之下，不能再移动 rsp
     for (int i = 0; i < c->callee_saved->count; ++i) {
         // Width-specific aliases can be collected after register allocation;
-        // PUSH always operates on the canonical 64-bit nonvolatile register.
+        // the save slot always holds the canonical 64-bit nonvolatile register.
         reg_t *saved = c->callee_saved->take[i];
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("push", AMD64_REG(reg)));
+        int64_t save_offset = c->call_stack_max_offset + i * QWORD;
+        slice_push(operations, AMD64_INST("mov", SIB_REG(rsp, NULL, 0, save_offset, QWORD), AMD64_REG(reg)));
     }
 
     //    c->stack_offset = offset;
@@ -1428,7 +1429,8 @@ slice_t *amd64_native_return(closure_t *c, lir_op_t *op) {
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("pop", AMD64_REG(reg)));
+        int64_t save_offset = c->call_stack_max_offset + i * QWORD;
+        slice_push(operations, AMD64_INST("mov", AMD64_REG(reg), SIB_REG(rsp, NULL, 0, save_offset, QWORD)));
     }
 
     //    slice_push(operations, AMD64_INST("mov", AMD64_REG(rsp), AMD64_REG(rbp)));
-- 
2.43.0


From 5208c30c3f4d07f5c468d45123222d753e6bab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:50 +0000
Subject: [PATCH 24/97] fix: keep zero bytes in string constants and folded or
 copied literals

---
 src/ast.c               |  5 ++---
 src/semantic/analyzer.c | 11 ++++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index aaa9031..1c93ee6 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -265,9 +265,8 @@ static ast_ident *ast_ident_copy(ast_ident *temp) {
 }
 
 static ast_literal_t *ast_literal_copy(ast_literal_t *temp) {
-    ast_literal_t *literal = COPY_NEW(ast_literal_t, temp);
-    literal->value = strdup(temp->value); // 根据实际情况复制，这里假设 value 是字符串
-    return literal;
+    // value 可能包含 '\0', 且字面量不会被修改，可以直接共享
+    return COPY_NEW(ast_literal_t, temp);
 }
 
 static ast_env_access_t *ast_env_access_copy(ast_env_access_t *temp) {
diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index 83c5522..d3fcb3a 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -1691,14 +1691,15 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
         // 处理字符串加法运算（字符串连接）
         if (left_literal->kind == TYPE_STRING && right_literal->kind == TYPE_STRING && binary_expr->op == AST_OP_ADD) {
             // 计算连接后的字符串长度
-            size_t left_len = strlen(left_literal->value);
-            size_t right_len = strlen(right_literal->value);
+            size_t left_len = left_literal->len;
+            size_t right_len = right_literal->len;
             size_t total_len = left_len + right_len + 1; // +1 for null terminator
 
             // 分配内存并连接字符串
             char *result_str = malloc(total_len);
-            strcpy(result_str, left_literal->value);
-            strcat(result_str, right_literal->value);
+            memcpy(result_str, left_literal->value, left_len);
+            memcpy(result_str + left_len, right_literal->value, right_len);
+            result_str[left_len + right_len] = '\0';
 
             // 创建结果字面量
             ast_literal_t *result_literal = NEW(ast_literal_t);
@@ -2113,7 +2114,7 @@ static void analyzer_constant_propagation(module_t *m, ast_expr_t *expr) {
 
     ast_literal_t *literal = NEW(ast_literal_t);
     literal->kind = right_literal->kind;
-    literal->value = strdup(right_literal->value);
+    literal->value = right_literal->value; // 字面量不会被修改，可以直接共享
     literal->len = right_literal->len;
 
     expr->value = literal;
-- 
2.43.0


From 7c8666d53639b1d0ac9b63770616b52ee3e61cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:47 +0000
Subject: [PATCH 25/97] fix: reject integer literals that do not fit 64 bits or
 have no digits

---
 src/linear.c         | 3 +++
 src/syntax/scanner.c | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index b5b574c..27d52be 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1,5 +1,6 @@
 #include "linear.h"
 
+#include <errno.h>
 #include <stddef.h>
 #include <stdio.h>
 #include <string.h>
@@ -3867,6 +3868,7 @@ static lir_operand_t *linear_literal(module_t *m, ast_expr_t expr, lir_operand_t
 
         const bool is_uint = is_unsigned(literal_kind);
 
+        errno = 0;
         if (is_uint) {
             i.u = strtoull(literal->value, &convert_endptr, 0);
         } else {
@@ -3875,6 +3877,7 @@ static lir_operand_t *linear_literal(module_t *m, ast_expr_t expr, lir_operand_t
         if (*convert_endptr != '\0') {
             LINEAR_ASSERTF(false, "covert '%s' to number failed", literal->value)
         }
+        LINEAR_ASSERTF(errno != ERANGE, "literal '%s' out of range", literal->value)
 
         lir_imm_t *imm_operand = NEW(lir_imm_t);
         imm_operand->kind = literal_kind;
diff --git a/src/syntax/scanner.c b/src/syntax/scanner.c
index b761b3d..71547e6 100644
--- a/src/syntax/scanner.c
+++ b/src/syntax/scanner.c
@@ -450,7 +450,7 @@ static char *scanner_number_convert(module_t *m, char *word, int base) {
     char *endptr;
     errno = 0;
     uint64_t decimal = strtoull(word, &endptr, base);
-    if (*endptr != '\0' || errno == ERANGE) {
+    if (endptr == word || *endptr != '\0' || errno == ERANGE) {
         dump_errorf(m, CT_STAGE_SCANNER, m->s_cursor.line, m->s_cursor.column - strlen(word),
                     "Invalid number `%s`", word);
     }
-- 
2.43.0


From efbdc540323ab428de4be53cbd5e62eca2247984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:44 +0000
Subject: [PATCH 26/97] fix: return mixed integer and float structs in the
 first free register of each class

A 16 byte struct with one integer half and one float half is returned in
rax and xmm0 by the System V ABI. The second half was placed in rdx or
xmm1, so C functions and nature functions disagreed on its value.
---
 src/lower/amd64_abi.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lower/amd64_abi.c b/src/lower/amd64_abi.c
index d506fed..d1feaaa 100644
--- a/src/lower/amd64_abi.c
+++ b/src/lower/amd64_abi.c
@@ -126,11 +126,12 @@ linked_t *amd64_lower_return(closure_t *c, lir_op_t *op) {
         if (count == 2) {
             lir_operand_t *hi_dst_reg = NULL;
             type_kind hi_kind;
+            // 每一类寄存器独立计数, lo 没有占用的第一个返回寄存器由 hi 使用
             if (hi == AMD64_CLASS_INTEGER) {
-                hi_dst_reg = operand_new(LIR_OPERAND_REG, rdx);
+                hi_dst_reg = operand_new(LIR_OPERAND_REG, lo == AMD64_CLASS_INTEGER ? rdx : rax);
                 hi_kind = TYPE_UINT64;
             } else {
-                hi_dst_reg = operand_new(LIR_OPERAND_REG, xmm1s64);
+                hi_dst_reg = operand_new(LIR_OPERAND_REG, lo == AMD64_CLASS_INTEGER ? xmm0s64 : xmm1s64);
                 hi_kind = TYPE_FLOAT64;
             }
             src = indirect_addr_operand(c->module, type_kind_new(hi_kind), return_operand, QWORD);
@@ -882,10 +883,10 @@ linked_t *amd64_lower_call(closure_t *c, lir_op_t *op) {
         type_kind hi_kind;
         if (count == 2) {
             if (hi == AMD64_CLASS_INTEGER) {
-                hi_src_reg = operand_new(LIR_OPERAND_REG, rdx);
+                hi_src_reg = operand_new(LIR_OPERAND_REG, lo == AMD64_CLASS_INTEGER ? rdx : rax);
                 hi_kind = TYPE_UINT64;
             } else {
-                hi_src_reg = operand_new(LIR_OPERAND_REG, xmm1s64);
+                hi_src_reg = operand_new(LIR_OPERAND_REG, lo == AMD64_CLASS_INTEGER ? xmm0s64 : xmm1s64);
                 hi_kind = TYPE_FLOAT64;
             }
             slice_push(output_regs, hi_src_reg->value);
-- 
2.43.0


From 6770744423d0e53340989ec3076a96ab62eee6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:37 +0000
Subject: [PATCH 27/97] fix: pass structs with array members to C by the class
 of their elements

A struct of at most 16 bytes with an array member was always passed and
returned in memory, while C classifies the array elements and uses
registers.
---
 src/lower/amd64_abi.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lower/amd64_abi.c b/src/lower/amd64_abi.c
index d1feaaa..c7d32ae 100644
--- a/src/lower/amd64_abi.c
+++ b/src/lower/amd64_abi.c
@@ -938,6 +938,19 @@ static amd64_class_t amd64_classify_merge(amd64_class_t a, amd64_class_t b) {
     return AMD64_CLASS_SSE;
 }
 
+// struct 中的数组成员等价于连续排列的 length 个元素
+static int64_t amd64_element_classify(type_t t, amd64_class_t *lo, amd64_class_t *hi, uint64_t offset) {
+    if (t.kind != TYPE_ARR) {
+        return amd64_type_classify(t, lo, hi, offset);
+    }
+
+    int64_t count = 1;
+    for (uint64_t i = 0; i < t.array->length && count != 0; i++) {
+        count = amd64_element_classify(t.array->element_type, lo, hi, offset + i * t.array->element_type.storage_size);
+    }
+    return count;
+}
+
 int64_t amd64_type_classify(type_t t, amd64_class_t *lo, amd64_class_t *hi, uint64_t offset) {
     uint64_t size = t.storage_size;
 
@@ -971,7 +984,7 @@ int64_t amd64_type_classify(type_t t, amd64_class_t *lo, amd64_class_t *hi, uint
 
             // 每个元素地址对齐
             offset = align_up(offset, element_align);
-            int64_t count = amd64_type_classify(element_type, lo, hi, offset);
+            int64_t count = amd64_element_classify(element_type, lo, hi, offset);
             if (count == 0) {
                 return 0;
             }
-- 
2.43.0


From 76336c169fee577710b7a6be70981975f3612854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:32 +0000
Subject: [PATCH 28/97] fix: store captured variables into fields, elements and
 literals

Using a variable that a closure captures as the value of a field or
element aborted the compiler.
---
 src/linear.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 27d52be..8387f62 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1080,17 +1080,16 @@ static lir_operand_t *linear_ident(module_t *m, ast_expr_t expr, lir_operand_t *
         if (s->is_local) {
             // var 存在 heap_ident 表明当前 var 被弃用，后续应该使用 heap_ident。只有一些标量类型会发生这种情况。
             if (symbol_var->heap_ident) {
-                assert(target == NULL);
                 assert(symbol_var->type.storage_kind != STORAGE_KIND_PTR);
 
                 lir_operand_t *src = lir_var_operand(m, symbol_var->heap_ident);
 
                 // struct 作为 param 时也需要进行 escape 处理
-                if (symbol_var->type.storage_kind == STORAGE_KIND_IND) {
-                    return src;
+                if (symbol_var->type.storage_kind != STORAGE_KIND_IND) {
+                    src = indirect_addr_operand(m, symbol_var->type, src, 0);
                 }
 
-                return indirect_addr_operand(m, symbol_var->type, src, 0);
+                return linear_super_move(m, symbol_var->type, target, src);
             }
 
             lir_operand_t *src = lir_var_operand(m, ident->literal);
-- 
2.43.0


From 03ac2039b9f10d8b83c34c797063064f6b23c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:43 +0000
Subject: [PATCH 29/97] fix: copy captured aggregates whole when a closure
 stores them

Inside a closure, storing a captured struct or array into a field,
element or literal wrote its address instead of its value.
---
 src/linear.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index 8387f62..d4df8c2 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -2708,7 +2708,13 @@ static lir_operand_t *linear_env_access(module_t *m, ast_expr_t expr, lir_operan
         target = temp_var_operand(m, expr.type);
     }
 
-    // 无论是 struct/arr 还是 string/vec/ptr 等都直接进行 move, 而不是 support move
+    // struct/arr 等存储在 target 指向的空间中, 需要完整复制
+    if (expr.type.storage_kind == STORAGE_KIND_IND) {
+        lir_operand_t *src = temp_var_operand(m, type_kind_new(TYPE_ANYPTR));
+        OP_PUSH(lir_op_move(src, src_ptr));
+        return linear_super_move(m, expr.type, target, src);
+    }
+
     OP_PUSH(lir_op_move(target, src_ptr));
     return target;
 }
-- 
2.43.0


From d1f6427f82d986597c4abe57603d974e268e23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:11 +0000
Subject: [PATCH 30/97] fix: give captured loop and select variables their heap
 cell

Scalar variables bound by a for-in loop or a select case were captured
by value where closures expect an address, so calling such a closure
crashed.
---
 src/linear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index d4df8c2..b5b595a 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1668,6 +1668,8 @@ static void linear_for_iterator(module_t *m, ast_for_iterator_stmt_t *ast) {
     // 添加 continue label
     OP_PUSH(lir_op_label(for_continue_ident, true));
 
+    linear_escape_rewrite(m, &ast->first, false);
+
     // gen value
     if (ast->second) {
         lir_operand_t *second_target = linear_var_decl(m, ast->second);
@@ -1683,6 +1685,7 @@ static void linear_for_iterator(module_t *m, ast_for_iterator_stmt_t *ast) {
 
         push_rt_call(m, RT_CALL_ITERATOR_TAKE_VALUE, NULL, 4, iterator_target, int_operand(rtype_hash), cursor_operand,
                      second_ref);
+        linear_escape_rewrite(m, ast->second, false);
     }
     // block
     linear_body(m, ast->body);
@@ -1957,6 +1960,9 @@ select_end:*/
         OP_PUSH(lir_op_new(LIR_OPCODE_BEE, chan_select_case_index, int_operand(i), handle_start->output));
         OP_PUSH(lir_op_bal(handle_end->output));
         OP_PUSH(handle_start);
+        if (select_case->recv_var) {
+            linear_escape_rewrite(m, select_case->recv_var, false);
+        }
         // handle body
         linear_body(m, select_case->handle_body);
         // bl select end
-- 
2.43.0


From 07f3fad6cbc1fdc4d18e36ebfb659985bd84c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:11 +0000
Subject: [PATCH 31/97] fix: share captured reference, function and channel
 variables

Variables of pointer type were copied into each closure, so writes by
one closure or by the declaring scope were not seen by the others.
---
 src/linear.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index b5b595a..912f67a 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -962,7 +962,8 @@ static void linear_escape_rewrite(module_t *m, ast_var_decl_t *var_decl, bool fo
     ast_var_decl_t *symbol_var = s->ast_value;
 
     // type 带有 in_heap 标志的简单类型需要进行 escape rewrite 改写才能分配在栈上
-    if (symbol_var->type.storage_kind == STORAGE_KIND_PTR) {
+    // 指针类型只有被闭包引用时才需要共享变量本身
+    if (symbol_var->type.storage_kind == STORAGE_KIND_PTR && !symbol_var->be_capture) {
         return;
     }
 
@@ -995,6 +996,11 @@ static void linear_escape_rewrite(module_t *m, ast_var_decl_t *var_decl, bool fo
     // - mov src 则是原始数据
     lir_operand_t *src = lir_var_operand(m, var_decl->ident);
     lir_operand_t *dst = heap_operand;
+    if (var_decl->type.storage_kind == STORAGE_KIND_PTR) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, heap_operand, src);
+        return;
+    }
+
     if (var_decl->type.storage_kind == STORAGE_KIND_DIR) {
         dst = indirect_addr_operand(m, var_decl->type, heap_operand, 0);
     }
@@ -1080,8 +1086,6 @@ static lir_operand_t *linear_ident(module_t *m, ast_expr_t expr, lir_operand_t *
         if (s->is_local) {
             // var 存在 heap_ident 表明当前 var 被弃用，后续应该使用 heap_ident。只有一些标量类型会发生这种情况。
             if (symbol_var->heap_ident) {
-                assert(symbol_var->type.storage_kind != STORAGE_KIND_PTR);
-
                 lir_operand_t *src = lir_var_operand(m, symbol_var->heap_ident);
 
                 // struct 作为 param 时也需要进行 escape 处理
@@ -1230,7 +1234,8 @@ static void linear_env_assign(module_t *m, ast_assign_stmt_t *stmt) {
             OP_PUSH(lir_op_move(dst, src)); // dir
         }
     } else {
-        lir_operand_t *dst_ptr = lea_operand_pointer(m, env_offset_operand);
+        lir_operand_t *dst_ptr = temp_var_operand(m, type_kind_new(TYPE_ANYPTR));
+        OP_PUSH(lir_op_move(dst_ptr, env_offset_operand));
         push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_ptr, src);
     }
 }
@@ -1340,6 +1345,13 @@ static void linear_ident_assign(module_t *m, ast_assign_stmt_t *stmt) {
     lir_operand_t *dst = linear_ident(m, stmt->left, NULL); // ident
 
     assert(stmt->left.type.kind > 0 && stmt->left.type.kind != TYPE_UNKNOWN);
+
+    // 被闭包引用的指针变量存储在堆中
+    if (stmt->left.type.storage_kind == STORAGE_KIND_PTR && dst->assert_type == LIR_OPERAND_INDIRECT_ADDR) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, lea_operand_pointer(m, dst), src);
+        return;
+    }
+
     linear_super_move(m, stmt->left.type, dst, src);
 }
 
@@ -2700,7 +2712,7 @@ static lir_operand_t *linear_env_access(module_t *m, ast_expr_t expr, lir_operan
                                                    ast->index * POINTER_SIZE);
 
     // envs 中总是存储的堆指针，即使是 scala 类型的数据, 所以此处需要进一步 indirect 获取对应的值，而不是 ptr value
-    if (expr.type.storage_kind == STORAGE_KIND_DIR) {
+    if (expr.type.storage_kind != STORAGE_KIND_IND) {
         src_ptr = indirect_addr_operand(m, expr.type, src_ptr, 0);
     }
 
@@ -3950,8 +3962,15 @@ static lir_operand_t *linear_capture_expr(module_t *m, ast_expr_t *expr) {
             return lir_var_operand(m, symbol_var->heap_ident);
         }
 
-        // fn/vec/map/tup/set/string 都走这里直接访问原 var
-        // struct/arr 同样直接访问原 ptr
+        // 没有经过 escape rewrite 的指针变量(局部命名函数)不会再被赋值，保存一份副本即可
+        if (symbol_var->type.storage_kind == STORAGE_KIND_PTR) {
+            lir_operand_t *cell = temp_var_operand(m, type_kind_new(TYPE_ANYPTR));
+            push_rt_call(m, RT_CALL_GC_MALLOC, cell, 1, int_operand(type_hash(symbol_var->type)));
+            push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, cell, lir_var_operand(m, symbol_var->ident));
+            return cell;
+        }
+
+        // struct/arr 直接访问原 ptr
         return lir_var_operand(m, symbol_var->ident);
     }
 
-- 
2.43.0


From 32c511f163fb9c14df68fbf36e9636a9dffd7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:54 +0000
Subject: [PATCH 32/97] fix: hand nested closures the full address of captured
 variables

A closure that captures a variable from two or more functions out read
the address of its cell with the size of the variable.
---
 src/linear.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index 912f67a..4ced81c 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -3944,7 +3944,8 @@ static lir_operand_t *linear_capture_expr(module_t *m, ast_expr_t *expr) {
         // 被 child fn 引用的 var 是更上一级的 var, local fn 也只能通过 env[n] 的方式引用
         ast_env_access_t *env_access = expr->value;
         lir_operand_t *values_operand = linear_inline_env_values(m);
-        lir_operand_t *env_value_ptr = indirect_addr_operand(m, expr->type, values_operand,
+        // env 中存储的总是地址
+        lir_operand_t *env_value_ptr = indirect_addr_operand(m, type_kind_new(TYPE_ANYPTR), values_operand,
                                                              env_access->index * POINTER_SIZE);
 
         return env_value_ptr;
-- 
2.43.0


From ad7389bd7078884751b8ccbad221fbba34c81878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:28 +0000
Subject: [PATCH 33/97] fix: resolve registers of values that stay live around
 a loop

Values introduced after SSA, such as the address of a returned struct,
were missing from the live-in sets of the blocks of a loop. A branch in
the loop could then use the spill slot without storing to it.
---
 src/register/interval.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/register/interval.c b/src/register/interval.c
index e1217fa..de8eebd 100644
--- a/src/register/interval.c
+++ b/src/register/interval.c
@@ -778,6 +778,24 @@ void interval_build(closure_t *c) {
                     interval_add_range(c, interval, block_from, OP(end->last_op)->id + 2);
                     //                    debug_interval_var(interval, "loop header add");
                 }
+
+                // 这些变量在循环的所有块入口都活跃，resolve_data_flow 依赖完整的 live in
+                for (int k = i + 1; k < c->blocks->count; ++k) {
+                    basic_block_t *loop_block = c->blocks->take[k];
+                    if (OP(linked_first(loop_block->operations))->id > OP(end->last_op)->id) {
+                        break;
+                    }
+
+                    table_t *loop_table = table_new();
+                    for (int n = 0; n < loop_block->alloc_live_in->count; ++n) {
+                        lir_var_t *var = loop_block->alloc_live_in->take[n];
+                        table_set(loop_table, var->ident, var);
+                    }
+                    for (int n = 0; n < lives->count; ++n) {
+                        live_add(loop_table, loop_block->alloc_live_in, lives->take[n]);
+                    }
+                    table_free(loop_table);
+                }
             }
         }
         block->alloc_live_in = lives;
-- 
2.43.0


From 1d007658b7cb9fe6b11f899bfcfc099cb6ebf17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:00 +0000
Subject: [PATCH 34/97] fix: load the address of captured aggregates before
 they are returned

---
 src/linear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index 4ced81c..e118311 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -2717,6 +2717,12 @@ static lir_operand_t *linear_env_access(module_t *m, ast_expr_t expr, lir_operan
     }
 
     if (expr.type.storage_kind != STORAGE_KIND_PTR && expr.type.in_heap && !target) {
+        // struct/arr 的使用者需要的是地址，先从 values 中取出
+        if (expr.type.storage_kind == STORAGE_KIND_IND) {
+            lir_operand_t *addr = temp_var_operand(m, expr.type);
+            OP_PUSH(lir_op_move(addr, src_ptr));
+            return addr;
+        }
         return src_ptr;
     }
 
-- 
2.43.0


From 5e2c6297b53eb78a8888a9c3247e650c36180104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:49 +0000
Subject: [PATCH 35/97] fix: compare enums of unsigned element types as
 unsigned

---
 src/linear.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index e118311..733dc22 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -517,6 +517,11 @@ linear_default_vec(module_t *m, type_t t, lir_operand_t *target) {
     return target;
 }
 
+// enum 按照其元素类型进行比较
+static inline type_kind linear_cmp_kind(type_t t) {
+    return t.kind == TYPE_ENUM ? t.enum_->element_type.kind : t.kind;
+}
+
 static inline lir_operand_t *linear_lea_builtin_value_struct(module_t *m, lir_operand_t *opd) {
     if (!opd) {
         return opd;
@@ -1576,7 +1581,7 @@ static void linear_cmp_neg(module_t *m, ast_expr_t *cond, lir_operand_t *cmp_tar
             opcode = ast_op_to_for_continue[binary_expr->op];
         }
 
-        if (is_unsigned(binary_expr->left.type.kind)) {
+        if (is_unsigned(linear_cmp_kind(binary_expr->left.type))) {
             switch (opcode) {
                 case LIR_OPCODE_BLT:
                     opcode = LIR_OPCODE_BULT;
@@ -2262,7 +2267,7 @@ static lir_operand_t *linear_binary(module_t *m, ast_expr_t expr, lir_operand_t
     lir_operand_t *left_target = linear_expr(m, binary_expr->left, NULL);
     lir_operand_t *right_target = linear_expr(m, binary_expr->right, NULL);
     lir_opcode_t opcode = ast_op_convert[binary_expr->op];
-    if (is_unsigned(binary_expr->left.type.kind)) {
+    if (is_unsigned(linear_cmp_kind(binary_expr->left.type))) {
         if (opcode == LIR_OPCODE_SSHR) {
             opcode = LIR_OPCODE_USHR;
         } else if (opcode == LIR_OPCODE_SDIV) {
-- 
2.43.0


From 603dc03e49b2ff22589fb9cb80497bec96c70b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:29 +0000
Subject: [PATCH 36/97] fix: report the full index and length in range errors

---
 runtime/nutils/nutils.c | 2 +-
 runtime/nutils/vec.c    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 07c64ba..e12047a 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -682,7 +682,7 @@ void throw_index_out_error(n_int_t *index, n_int_t *len, n_bool_t be_catch) {
     caller_t *caller = caller_from_return_address(ret_addr);
     assert(caller);
 
-    char *msg = tlsprintf("index out of range [%d] with length %d", index, len);
+    char *msg = tlsprintf("index out of range [%lld] with length %lld", (long long) index, (long long) len);
 
     if (be_catch) {
         n_interface_t error = n_error_new(string_new(msg, strlen(msg)), true);
diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 706de90..f9bb6ed 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -178,7 +178,7 @@ void rt_vec_new_out(n_vec_t *out, int64_t hash, int64_t element_hash, int64_t ca
  */
 void rti_vec_access(n_vec_t *l, uint64_t index, void *value_ref) {
     if (index >= l->length) {
-        char *msg = tlsprintf("index out of range [%d] with length %d", index, l->length);
+        char *msg = tlsprintf("index out of range [%lld] with length %lld", (long long) index, (long long) l->length);
         DEBUGF("[runtime.rti_vec_access] has err %s", msg);
         rti_throw(msg, true);
 
@@ -301,7 +301,8 @@ n_vec_t rt_vec_slice(n_vec_t *l, int64_t start, int64_t end) {
 
     // start end 检测
     if (start > l->length || end > l->length || start < 0 || end < 0) {
-        char *msg = tlsprintf("slice [%d:%d] out of vec with length %d", start, end, l->length);
+        char *msg = tlsprintf("slice [%lld:%lld] out of vec with length %lld", (long long) start, (long long) end,
+                              (long long) l->length);
         DEBUGF("[runtime.vec_slice] has err %s", msg);
         rti_throw(msg, true);
         n_vec_t empty = {0};
@@ -309,7 +310,7 @@ n_vec_t rt_vec_slice(n_vec_t *l, int64_t start, int64_t end) {
     }
 
     if (start > end) {
-        char *msg = tlsprintf("invalid index values, must be low %d <= high %d", start, end);
+        char *msg = tlsprintf("invalid index values, must be low %lld <= high %lld", (long long) start, (long long) end);
         DEBUGF("[runtime.vec_slice] has err %s", msg);
         rti_throw(msg, true);
         n_vec_t empty = {0};
@@ -379,7 +380,7 @@ n_anyptr_t rt_vec_element_addr(n_vec_t *l, uint64_t index) {
            l->length);
 
     if (index >= l->length) {
-        char *msg = tlsprintf("index out of vec [%d] with length %d", index, l->length);
+        char *msg = tlsprintf("index out of vec [%lld] with length %lld", (long long) index, (long long) l->length);
         DEBUGF("[runtime.rt_vec_element_addr] has err %s", msg);
         rti_throw(msg, true);
         return 0;
-- 
2.43.0


From f0048891b501b61699085cb73513768ed26c0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:34 +0000
Subject: [PATCH 37/97] fix: refuse vectors whose byte size does not fit 64
 bits

---
 runtime/nutils/vec.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index f9bb6ed..7ae203f 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -90,6 +90,11 @@ n_vec_t rt_vec_new(int64_t hash, int64_t element_hash, int64_t length, void *val
     rtype_t *element_rtype = rt_find_rtype(element_hash);
     assert(element_rtype && "cannot find element_rtype with hash");
     int64_t element_size = element_rtype->storage_size;
+    if (element_size > 0 && capacity > INT64_MAX / element_size) {
+        rti_throw("len out of memory", true);
+        n_vec_t empty = {0};
+        return empty;
+    }
 
     // - 进行内存申请,申请回来一段内存是 memory_vec_t 大小的内存, memory_vec_* 就是限定这一片内存区域的结构体表示
     // 虽然数组也这么表示，但是数组本质上只是利用了 vec_data + 1 时会按照 sizeof(memory_vec_t) 大小的内存区域移动
@@ -137,6 +142,11 @@ n_vec_t rt_vec_cap(int64_t hash, int64_t element_hash, int64_t capacity) {
 
     rtype_t *element_rtype = rt_find_rtype(element_hash);
     assert(element_rtype && "cannot find element_rtype with hash");
+    if (element_rtype->storage_size > 0 && capacity > INT64_MAX / (int64_t) element_rtype->storage_size) {
+        rti_throw("cap out of memory", true);
+        n_vec_t empty = {0};
+        return empty;
+    }
 
     // - 进行内存申请,申请回来一段内存是 memory_vec_t 大小的内存, memory_vec_* 就是限定这一片内存区域的结构体表示
     // 虽然数组也这么表示，但是数组本质上只是利用了 vec_data + 1 时会按照 sizeof(memory_vec_t) 大小的内存区域移动
-- 
2.43.0


From ec4d5703341f14be3aca5b0bb215b965ed8bf961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:12 +0000
Subject: [PATCH 38/97] fix: compute the value before looking up the map slot
 it is stored in

---
 src/linear.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 733dc22..c9efb50 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1253,6 +1253,9 @@ static void linear_map_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     lir_operand_t *key_ref = lea_operand_pointer(m, linear_expr(m, map_access->key, NULL));
 
+    // right 可能会修改 map (grow/delete), 所以需要在获取 slot 之前完成计算
+    lir_operand_t *src = linear_expr(m, stmt->right, temp_var_operand_with_alloc(m, stmt->right.type));
+
     // dst 是一个 slot 提供写入地址
     lir_operand_t *dst = temp_var_operand_with_alloc(m, type_kind_new(TYPE_ANYPTR));
     push_rt_call(m, RT_CALL_MAP_ASSIGN, dst, 2, map_target, key_ref);
@@ -1260,13 +1263,12 @@ static void linear_map_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     if (is_gc_alloc(stmt->left.type.kind)) {
         // 不包含 struct/array
-        lir_operand_t *obj = linear_expr(m, stmt->right, NULL);
-        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst, obj);
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst, src);
     } else {
         if (stmt->right.type.storage_kind != STORAGE_KIND_IND) {
             dst = indirect_addr_operand(m, stmt->right.type, dst, 0);
         }
-        linear_expr(m, stmt->right, dst);
+        linear_super_move(m, stmt->right.type, dst, src);
     }
 }
 
-- 
2.43.0


From abe779780fca1fefb97a852e413ff75945d034e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:12 +0000
Subject: [PATCH 39/97] fix: build a new aggregate completely before it
 replaces the old one

---
 src/linear.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index c9efb50..86c8dff 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1155,6 +1155,19 @@ static void linear_vec_assign(module_t *m, ast_assign_stmt_t *stmt) {
     }
 }
 
+/**
+ * a.b = foo{x: a.b.y, y: a.b.x} right 可能会读取 target，所以不能直接在 target 中构造
+ */
+static void linear_assign_right(module_t *m, ast_assign_stmt_t *stmt, lir_operand_t *target) {
+    if (stmt->left.type.storage_kind != STORAGE_KIND_IND) {
+        linear_expr(m, stmt->right, target);
+        return;
+    }
+
+    lir_operand_t *src = linear_expr(m, stmt->right, NULL);
+    linear_super_move(m, stmt->left.type, target, src);
+}
+
 static void linear_array_assign(module_t *m, ast_assign_stmt_t *stmt) {
     // ptr 返回的是一个 indirect, 所以需要进行 lea 处理
     lir_operand_t *target = linear_array_access(m, stmt->left, NULL);
@@ -1164,7 +1177,7 @@ static void linear_array_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
         push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, new_obj);
     } else {
-        linear_expr(m, stmt->right, target);
+        linear_assign_right(m, stmt, target);
     }
 }
 
@@ -1189,7 +1202,7 @@ static void linear_tuple_assign(module_t *m, ast_assign_stmt_t *stmt) {
             dst = lea_operand_pointer(m, dst);
         }
 
-        linear_expr(m, stmt->right, dst);
+        linear_assign_right(m, stmt, dst);
     }
 }
 
@@ -1312,7 +1325,7 @@ static void linear_struct_assign(module_t *m, ast_assign_stmt_t *stmt) {
         if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
             dst_slot = lea_operand_pointer(m, dst_slot);
         }
-        linear_expr(m, stmt->right, dst_slot);
+        linear_assign_right(m, stmt, dst_slot);
     }
 }
 
-- 
2.43.0


From fb1eb562f5682b8027d9eb3106d07e845a8da1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:22 +0000
Subject: [PATCH 40/97] fix: search strings by length instead of up to a
 terminating zero

---
 std/strings/strings.n | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/std/strings/strings.n b/std/strings/strings.n
index 0e1f45c..7c1099b 100644
--- a/std/strings/strings.n
+++ b/std/strings/strings.n
@@ -31,14 +31,18 @@ pub fn string.find_after(self, string sub, int after):int {
         return self.find_char(sub[0], after)
     }
 
-    anyptr base = self.ref()
-    var temp = libc.strstr((base as uint + after as uint) as libc.cstr, sub.to_cstr())
-    if temp == 0 {
-        return -1
+    for int k = after; k + n <= self.len(); k += 1 {
+        int j = 0
+        for j < n && self[k + j] == sub[j] {
+            j += 1
+        }
+
+        if j == n {
+            return k
+        }
     }
 
-    uint index = temp as uint - base as uint
-    return index as int
+    return -1
 }
 
 pub fn string.reverse(self):string {
-- 
2.43.0


From 5cf83fdf79a7963fc956236ca94d1ff77b5df87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:22 +0000
Subject: [PATCH 41/97] fix: end string slices with the zero byte C code relies
 on

---
 src/linear.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index 86c8dff..55b1d11 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -2499,6 +2499,11 @@ static lir_operand_t *linear_vec_slice(module_t *m, ast_expr_t expr, lir_operand
 
     linear_has_panic(m);
 
+    // string 末尾必须存在 '\0', 共享 data 的 slice 无法满足，所以需要 copy
+    if (ast->left.type.kind == TYPE_STRING) {
+        push_rt_call(m, RT_CALL_STRING_TO_VEC, NULL, 2, out_ptr, out_ptr);
+    }
+
     return target;
 }
 
-- 
2.43.0


From f6be234c0d0b487c32dc8d809089dc8eab44d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:22 +0000
Subject: [PATCH 42/97] fix: print the digit of a padded zero

---
 std/fmt/utils.n | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/std/fmt/utils.n b/std/fmt/utils.n
index 209131b..bf4d68f 100644
--- a/std/fmt/utils.n
+++ b/std/fmt/utils.n
@@ -38,9 +38,10 @@ pub fn utos_hex_with<T>(anyptr v, string fill, u8 width):string {
         }
 
         // 填充 width 个数的 fill 字符，并返回
-        for u8 j = 0; j < width; j+=1 {
+        for u8 j = 1; j < width; j+=1 {
             result.push(ascii(fill))
         }
+        result.push(ascii('0'))
 
         return result as string
     }
@@ -89,9 +90,10 @@ pub fn utos_hex_upper_with<T>(anyptr v, string fill, u8 width):string {
         }
 
         // 填充 width 个数的 fill 字符，并返回
-        for u8 j = 0; j < width; j+=1 {
+        for u8 j = 1; j < width; j+=1 {
             result.push(ascii(fill))
         }
+        result.push(ascii('0'))
 
         return result as string
     }
@@ -139,9 +141,10 @@ pub fn utos_with<T>(anyptr v, string fill, u8 width):string {
         }
 
         // 填充 width 个数的 fill 字符，并返回
-        for u8 j = 0; j < width; j+=1 {
+        for u8 j = 1; j < width; j+=1 {
             result.push(ascii(fill))
         }
+        result.push(ascii('0'))
 
         return result as string
     }
@@ -192,9 +195,10 @@ pub fn itos_with<T>(anyptr v, string fill, u8 width):string {
         }
 
         // 填充 width 个数的 0， 并返回
-        for u8 i = 0; i < width; i+=1 {
+        for u8 i = 1; i < width; i+=1 {
             result.push(ascii(fill))
         }
+        result.push(ascii('0'))
 
         return result as string
     }
-- 
2.43.0


From 855e4c58b21597d218932bd5e67e43b006910ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:22 +0000
Subject: [PATCH 43/97] fix: format the smallest value of signed integer types

---
 std/fmt/utils.n | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/std/fmt/utils.n b/std/fmt/utils.n
index bf4d68f..2b8cef6 100644
--- a/std/fmt/utils.n
+++ b/std/fmt/utils.n
@@ -207,6 +207,9 @@ pub fn itos_with<T>(anyptr v, string fill, u8 width):string {
     // 按 base 进行转换
     for i != 0 {
         int rem = i as int % base
+        if rem < 0 { // 最小的负数没有对应的正数
+            rem = -rem
+        }
         result.push(rem as u8 + ascii('0') as u8)
 
         i = i / 10
-- 
2.43.0


From 2ad1d9be2ccd65cfb0494600d1bb26a178454bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:06 +0000
Subject: [PATCH 44/97] fix: keep the rest of a query value after its first
 equals sign

---
 std/net/url.n | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/net/url.n b/std/net/url.n
index 65ac4cd..2e7c11d 100644
--- a/std/net/url.n
+++ b/std/net/url.n
@@ -151,8 +151,8 @@ pub fn url_t.query(*self):query_t {
         if kv.len() >= 1 {
             var key = kv[0]
             var value = ""
-            if kv.len() == 2 {
-                value = kv[1]
+            if pair.len() > key.len() {
+                value = pair.slice(key.len() + 1, pair.len()) // value 中可以包含 =
             }
 
 
-- 
2.43.0


From bf1ac5149f9f5eeba4e1c687b6ff87823bc67032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:06 +0000
Subject: [PATCH 45/97] fix: extend narrow index and slice bounds by their
 signedness

A signed index narrower than 64 bits was zero extended, so a negative i8
index reached element 255 instead of being out of range. Narrow slice
bounds were passed to the runtime without any extension.
---
 src/linear.c | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 55b1d11..7a70aaf 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -172,18 +172,27 @@ static void linear_bal_error(module_t *m, char *error_target_label, uint16_t cat
     OP_PUSH(lir_op_bal(lir_label_operand(error_target_label, true)));
 }
 
+static lir_operand_t *linear_index_extend(module_t *m, lir_operand_t *index_target) {
+    if (operand_type_storage_size(index_target) >= POINTER_SIZE) {
+        return index_target;
+    }
+
+    lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
+    if (is_signed(lir_operand_type(index_target).map_imm_kind)) {
+        OP_PUSH(lir_op_sext(temp_index_target, index_target));
+    } else {
+        OP_PUSH(lir_op_uext(temp_index_target, index_target));
+    }
+    return temp_index_target;
+}
+
 static lir_operand_t *
 linear_inline_arr_element_addr_not_check(module_t *m, lir_operand_t *arr_target, lir_operand_t *index_target,
                                          type_t arr_type) {
     assert(arr_type.kind == TYPE_ARR);
     assert(arr_target->assert_type != LIR_OPERAND_SYMBOL_VAR);
 
-    int64_t index_storage_size = operand_type_storage_size(index_target);
-    if (index_storage_size < POINTER_SIZE) {
-        lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
-        index_target = temp_index_target;
-    }
+    index_target = linear_index_extend(m, index_target);
 
     int64_t element_size = arr_type.array->element_type.storage_size;
 
@@ -202,12 +211,7 @@ linear_inline_arr_element_addr(module_t *m, lir_operand_t *arr_target, lir_opera
     assert(arr_type.kind == TYPE_ARR);
     assert(arr_target->assert_type != LIR_OPERAND_SYMBOL_VAR);
 
-    int64_t index_storage_size = operand_type_storage_size(index_target);
-    if (index_storage_size < POINTER_SIZE) {
-        lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
-        index_target = temp_index_target;
-    }
+    index_target = linear_index_extend(m, index_target);
 
     // get vec length
     lir_operand_t *length_target = int_operand(arr_type.array->length);
@@ -252,13 +256,7 @@ linear_inline_vec_element_addr_no_check(module_t *m, lir_operand_t *vec_target,
                                         type_t vec_element_type) {
     assert(vec_element_type.kind > 0);
 
-    int64_t index_storage_size = operand_type_storage_size(index_target);
-    if (index_storage_size < POINTER_SIZE) {
-        lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
-
-        index_target = temp_index_target;
-    }
+    index_target = linear_index_extend(m, index_target);
 
     if (vec_target->assert_type == LIR_OPERAND_SYMBOL_VAR) {
         // global vec copy to temp
@@ -296,13 +294,7 @@ linear_inline_vec_element_addr(module_t *m, lir_operand_t *vec_target, lir_opera
                                type_t vec_element_type) {
     assert(vec_element_type.kind > 0);
 
-    int64_t index_storage_size = operand_type_storage_size(index_target);
-    if (index_storage_size < POINTER_SIZE) {
-        lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
-
-        index_target = temp_index_target;
-    }
+    index_target = linear_index_extend(m, index_target);
 
     if (vec_target->assert_type == LIR_OPERAND_SYMBOL_VAR) {
         // global vec copy to temp
@@ -2487,8 +2479,8 @@ static lir_operand_t *linear_vec_slice(module_t *m, ast_expr_t expr, lir_operand
     ast_vec_slice_t *ast = expr.value;
 
     lir_operand_t *vec_target = linear_expr(m, ast->left, NULL);
-    lir_operand_t *start_target = linear_expr(m, ast->start, NULL);
-    lir_operand_t *end_target = linear_expr(m, ast->end, NULL);
+    lir_operand_t *start_target = linear_index_extend(m, linear_expr(m, ast->start, NULL));
+    lir_operand_t *end_target = linear_index_extend(m, linear_expr(m, ast->end, NULL));
 
     if (target == NULL) {
         target = temp_var_operand_with_alloc(m, ast->left.type);
-- 
2.43.0


From e2215c411e9f025c1fe6ff39db98706bbfee27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:43 +0000
Subject: [PATCH 46/97] fix: initialise the MD5 context as the type it is

md5.new cleared a whole MD5 state over the smaller generic digest
context, overwriting whatever follows it on the heap.
---
 std/crypto/md5.n | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/crypto/md5.n b/std/crypto/md5.n
index b67350b..e1582cb 100644
--- a/std/crypto/md5.n
+++ b/std/crypto/md5.n
@@ -8,7 +8,7 @@ pub type md5_t = struct{
 
 pub fn new():ref<md5_t> {
     var m =  new md5_t()
-    utils.mbedtls_md5_init(&m.mbed_ctx)
+    utils.mbedtls_md_init(&m.mbed_ctx)
     //     MBEDTLS_MD_MD5=0x03,       /**< The MD5 message digest. */
     anyptr md_info = utils.mbedtls_md_info_from_type(0x03)
     assert(md_info > 0)
-- 
2.43.0


From 384effb37a627c420099dd14e7bc590b72562d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:57 +0000
Subject: [PATCH 47/97] fix: keep the storage address of an indirect catch
 result

---
 src/linear.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index 7a70aaf..fc9a21d 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -3806,7 +3806,8 @@ static lir_operand_t *linear_catch_expr(module_t *m, ast_expr_t expr, lir_operan
     if (has_ret && has_default_operand(m, expr.type)) {
         linear_default_operand(m, expr.type, target);
         has_ret = false; // 设置了默认值之后可以不进行 break check
-    } else {
+    } else if (expr.type.storage_kind != STORAGE_KIND_IND) {
+        // an indirect target holds the address of its storage, which must survive
         OP_PUSH(lir_op_nop_def(target));
     }
 
-- 
2.43.0


From b172bb8e19cb5845a6d662e3beeae430cbef6a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:57 +0000
Subject: [PATCH 48/97] fix: copy the captured variables of a closure for each
 instantiation

---
 src/ast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 1c93ee6..d9a6e9a 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -941,7 +941,11 @@ ast_fndef_t *ast_fndef_copy(module_t *m, ast_fndef_t *temp) {
     fndef->return_type = type_copy(m, temp->return_type);
     fndef->params = ast_fn_formals_copy(m, temp->params);
     fndef->type = type_copy(m, temp->type);
-    fndef->capture_exprs = temp->capture_exprs;
+    fndef->capture_exprs = ct_list_new(sizeof(ast_expr_t));
+    for (int i = 0; i < temp->capture_exprs->length; ++i) {
+        ast_expr_t *expr = ct_list_value(temp->capture_exprs, i);
+        ct_list_push(fndef->capture_exprs, ast_expr_copy(m, expr));
+    }
     fndef->fn_name = temp->fn_name;
     fndef->fn_name_with_pkg = temp->fn_name_with_pkg;
     fndef->rel_path = temp->rel_path;
-- 
2.43.0


From 1ab32a098f4a5c3f7418c12e2329e79740fdfce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:19 +0000
Subject: [PATCH 49/97] fix: compute the value of an assignment before its
 target changes

---
 src/linear.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index fc9a21d..7da6f22 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1148,14 +1148,9 @@ static void linear_vec_assign(module_t *m, ast_assign_stmt_t *stmt) {
 }
 
 /**
- * a.b = foo{x: a.b.y, y: a.b.x} right 可能会读取 target，所以不能直接在 target 中构造
+ * a.b = foo{x: a.b.y, y: a.b.x} / a.b = a.c || a.b right 可能会读取 target，所以不能直接在 target 中构造
  */
 static void linear_assign_right(module_t *m, ast_assign_stmt_t *stmt, lir_operand_t *target) {
-    if (stmt->left.type.storage_kind != STORAGE_KIND_IND) {
-        linear_expr(m, stmt->right, target);
-        return;
-    }
-
     lir_operand_t *src = linear_expr(m, stmt->right, NULL);
     linear_super_move(m, stmt->left.type, target, src);
 }
-- 
2.43.0


From faee3a81cbc6fdd8699134a03f1689ff60b5ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:19 +0000
Subject: [PATCH 50/97] fix: read the payload of a tagged union when it is a
 union, any or interface

---
 src/linear.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 7da6f22..4302d4e 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -3258,6 +3258,14 @@ static lir_operand_t *linear_as_expr(module_t *m, ast_expr_t expr, lir_operand_t
         }
     }
 
+    if (as_expr->src.type.kind == TYPE_TAGGED_UNION && as_expr->union_tag) {
+        lir_operand_t *payload = indirect_addr_operand(m, as_expr->target_type, src_operand, POINTER_SIZE);
+        if (as_expr->target_type.storage_kind == STORAGE_KIND_IND) {
+            payload = lea_operand_pointer(m, payload);
+        }
+        return linear_super_move(m, as_expr->target_type, target, payload);
+    }
+
     uint64_t src_rtype_hash = type_hash(as_expr->src.type);
     uint64_t target_size = as_expr->target_type.storage_size;
     uint64_t src_size = as_expr->src.type.storage_size;
@@ -3445,14 +3453,6 @@ static lir_operand_t *linear_as_expr(module_t *m, ast_expr_t expr, lir_operand_t
         }
     }
 
-    if (as_expr->src.type.kind == TYPE_TAGGED_UNION) {
-        lir_operand_t *payload = indirect_addr_operand(m, as_expr->target_type, src_operand, POINTER_SIZE);
-        if (as_expr->target_type.storage_kind == STORAGE_KIND_IND) {
-            payload = lea_operand_pointer(m, payload);
-        }
-        return linear_super_move(m, as_expr->target_type, target, payload);
-    }
-
     // interface as
     if (as_expr->src.type.kind == TYPE_INTERFACE) {
         assert(as_expr->target_type.kind != TYPE_INTERFACE);
-- 
2.43.0


From 249b2b86edb9b4a1cf770e6565e02cd11d82ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:29 +0000
Subject: [PATCH 51/97] fix: copy the element type of an array for each
 instantiation

---
 src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast.c b/src/ast.c
index d9a6e9a..086df41 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -146,6 +146,7 @@ static type_ptr_t *type_pointer_copy(module_t *m, type_ptr_t *temp) {
 
 static type_array_t *type_array_copy(module_t *m, type_array_t *temp) {
     type_array_t *array = COPY_NEW(type_array_t, temp);
+    array->element_type = type_copy(m, temp->element_type);
     return array;
 }
 
-- 
2.43.0


From da1edd4710abfd771ffcd4d92cae2b4bbb8e5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:29 +0000
Subject: [PATCH 52/97] fix: keep the kind of match and select cases in
 instantiated functions

---
 src/ast.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 086df41..026e02f 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -680,8 +680,10 @@ static ast_select_stmt_t *ast_select_copy(module_t *m, ast_select_stmt_t *temp)
     SLICE_FOR(temp->cases) {
         ast_select_case_t *match_case = SLICE_VALUE(temp->cases);
 
-        ast_select_case_t *new_select_case = NEW(ast_select_case_t);
-        new_select_case->on_call = ast_call_copy(m, match_case->on_call);
+        ast_select_case_t *new_select_case = COPY_NEW(ast_select_case_t, match_case);
+        if (match_case->on_call) {
+            new_select_case->on_call = ast_call_copy(m, match_case->on_call);
+        }
         if (match_case->recv_var) {
             new_select_case->recv_var = ast_var_decl_copy(m, match_case->recv_var);
         }
@@ -704,7 +706,7 @@ static ast_match_t *ast_match_copy(module_t *m, ast_match_t *temp) {
     SLICE_FOR(temp->cases) {
         ast_match_case_t *match_case = SLICE_VALUE(temp->cases);
 
-        ast_match_case_t *new_match_case = NEW(ast_match_case_t);
+        ast_match_case_t *new_match_case = COPY_NEW(ast_match_case_t, match_case);
         new_match_case->cond_list = ast_list_expr_copy(m, match_case->cond_list);
         new_match_case->handle_body = ast_body_copy(m, match_case->handle_body);
         slice_push(cases, new_match_case);
-- 
2.43.0


From 218768c6ae79aa6159cd18dc9cdfb7d69c958e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:29 +0000
Subject: [PATCH 53/97] fix: copy tagged union expressions for each
 instantiation

---
 src/ast.c            | 14 ++++++++++++++
 src/semantic/infer.c |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 026e02f..278ecd0 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -280,6 +280,7 @@ static ast_as_expr_t *ast_as_expr_copy(module_t *m, ast_as_expr_t *temp) {
     ast_as_expr_t *as_expr = COPY_NEW(ast_as_expr_t, temp);
     as_expr->src = *ast_expr_copy(m, &temp->src);
     as_expr->target_type = type_copy(m, temp->target_type);
+    as_expr->union_tag = ast_expr_copy(m, temp->union_tag);
     return as_expr;
 }
 
@@ -336,6 +337,7 @@ static ast_is_expr_t *ast_is_expr_copy(module_t *m, ast_is_expr_t *temp) {
     ast_is_expr_t *is_expr = COPY_NEW(ast_is_expr_t, temp);
     is_expr->src = ast_expr_copy(m, temp->src);
     is_expr->target_type = type_copy(m, temp->target_type);
+    is_expr->union_tag = ast_expr_copy(m, temp->union_tag);
     if (temp->binding) {
         is_expr->binding = ast_expr_copy(m, temp->binding);
     }
@@ -491,6 +493,13 @@ static ast_tuple_destr_t *ast_tuple_destr_copy(module_t *m, ast_tuple_destr_t *t
     return tuple_destr;
 }
 
+static ast_tagged_union_t *ast_tagged_union_copy(module_t *m, ast_tagged_union_t *temp) {
+    ast_tagged_union_t *tagged_union = COPY_NEW(ast_tagged_union_t, temp);
+    tagged_union->union_type = type_copy(m, temp->union_type);
+    tagged_union->arg = ast_expr_copy(m, temp->arg);
+    return tagged_union;
+}
+
 static ast_macro_async_t *ast_async_copy(module_t *m, ast_macro_async_t *temp) {
     ast_macro_async_t *expr = COPY_NEW(ast_macro_async_t, temp);
     expr->args_copy_stmts = ast_body_copy(m, expr->args_copy_stmts);
@@ -644,6 +653,11 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_select_expr_copy(m, temp->value);
             break;
         }
+        case AST_EXPR_TAGGED_UNION_ELEMENT:
+        case AST_EXPR_TAGGED_UNION_NEW: {
+            expr->value = ast_tagged_union_copy(m, temp->value);
+            break;
+        }
         default:
             assertf(false, "ast_expr_copy unknown expr");
     }
diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index d78137f..468a665 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1127,6 +1127,7 @@ static type_t infer_as_expr(module_t *m, ast_expr_t *expr) {
     // as union tag
     if (as_expr->union_tag) {
         INFER_ASSERTF(as_expr->src.type.kind == TYPE_TAGGED_UNION, "unexpected as expr");
+        infer_tagged_union_element(m, as_expr->union_tag, src_type);
         ast_tagged_union_t *tag = as_expr->union_tag->value;
         tag->element->type = reduction_type(m, tag->element->type);
         as_expr->target_type = tag->element->type;
-- 
2.43.0


From ae05b701060453b1ae69029e7988e207e1715ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:29 +0000
Subject: [PATCH 54/97] fix: copy conditional expressions for each
 instantiation

---
 src/ast.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 278ecd0..499bee9 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -357,6 +357,14 @@ static ast_binary_expr_t *ast_binary_copy(module_t *m, ast_binary_expr_t *temp)
     return binary;
 }
 
+static ast_ternary_expr_t *ast_ternary_copy(module_t *m, ast_ternary_expr_t *temp) {
+    ast_ternary_expr_t *ternary = COPY_NEW(ast_ternary_expr_t, temp);
+    ternary->condition = *ast_expr_copy(m, &temp->condition);
+    ternary->consequent = *ast_expr_copy(m, &temp->consequent);
+    ternary->alternate = *ast_expr_copy(m, &temp->alternate);
+    return ternary;
+}
+
 static ast_map_access_t *ast_map_access_copy(module_t *m, ast_map_access_t *temp) {
     ast_map_access_t *access = COPY_NEW(ast_map_access_t, temp);
     access->left = *ast_expr_copy(m, &temp->left);
@@ -535,6 +543,10 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_binary_copy(m, temp->value);
             break;
         }
+        case AST_EXPR_TERNARY: {
+            expr->value = ast_ternary_copy(m, temp->value);
+            break;
+        }
         case AST_EXPR_UNARY: {
             expr->value = ast_unary_copy(m, temp->value);
             break;
-- 
2.43.0


From 9bb2086167503359e9253ce1b62bdad8037cea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:27 +0000
Subject: [PATCH 55/97] fix: copy declarations inside tuple patterns for each
 instantiation

---
 src/ast.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 499bee9..ed39b0b 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -11,6 +11,8 @@ static ast_stmt_t *ast_stmt_copy(module_t *m, ast_stmt_t *temp);
 
 static ast_call_t *ast_call_copy(module_t *m, ast_call_t *temp);
 
+static ast_var_decl_t *ast_var_decl_copy(module_t *m, ast_var_decl_t *temp);
+
 static ast_catch_t *ast_catch_copy(module_t *m, ast_catch_t *temp);
 
 static ast_match_t *ast_match_copy(module_t *m, ast_match_t *temp);
@@ -605,6 +607,10 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_tuple_destr_copy(m, temp->value);
             break;
         }
+        case AST_VAR_DECL: {
+            expr->value = ast_var_decl_copy(m, temp->value);
+            break;
+        }
         case AST_EXPR_TUPLE_ACCESS: {
             expr->value = ast_tuple_access_copy(m, temp->value);
             break;
-- 
2.43.0


From 64143d07ecccdb3cea7d53d306f6a89c70bb7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:42 +0000
Subject: [PATCH 56/97] fix: accept local constants in generic functions

---
 src/ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index ed39b0b..4a594e7 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -921,6 +921,9 @@ static ast_stmt_t *ast_stmt_copy(module_t *m, ast_stmt_t *temp) {
             stmt->value = ast_call_copy(m, temp->value);
             break;
         }
+        case AST_STMT_CONSTDEF: {
+            break; // folded into its uses by the analyzer
+        }
         case AST_STMT_CONTINUE: {
             stmt->value = NULL;
             break;
-- 
2.43.0


From 50742171d60e78b7fac63e81697f9e2b2a0c690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 57/97] fix: shade the overwritten reference in the write
 barrier

A reference that is loaded into an already scanned stack and then
overwritten in its heap slot was lost, because the barrier only shaded
the object containing the slot. Elements wider than a word were moved
before the barrier looked at the old value.
---
 runtime/nutils/nutils.c | 15 +++++++++++----
 runtime/nutils/vec.c    | 19 +------------------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index e12047a..385b68e 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -871,7 +871,12 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
         return;
     }
 
-    // yuasa 删除写屏障 shade slot
+    // yuasa 删除写屏障, slot 中原有的 obj 可能已经被加载到扫描完成的 stack 中
+    if (span_of((addr_t) *(void **) slot)) {
+        shade_obj_grey(*(void **) slot);
+    }
+
+    // slot 所在的 obj 可能已经扫描完成
     shade_obj_grey(slot);
 
     // stack 扫描完成后退化成黑色写屏障, 否则是是灰色写屏障
@@ -901,9 +906,8 @@ void write_barrier(void *slot, void *new_obj) {
 }
 
 void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
-    memmove(dst, src, rtype->storage_size);
-
     if (!gc_barrier_get() || rtype->last_ptr == 0) {
+        memmove(dst, src, rtype->storage_size);
         return;
     }
 
@@ -918,8 +922,11 @@ void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
             continue;
         }
         void **slot = (void **) ((uint8_t *) dst + (i * POINTER_SIZE));
-        rti_write_barrier_ptr(slot, *slot, false);
+        void **src_slot = (void **) ((uint8_t *) src + (i * POINTER_SIZE));
+        rti_write_barrier_ptr(slot, *src_slot, false);
     }
+
+    memmove(dst, src, rtype->storage_size);
 }
 
 void ptr_valid(void *ptr) {
diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 7ae203f..9300a82 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -218,24 +218,7 @@ void rti_vec_assign(n_vec_t *l, uint64_t index, void *ref, rtype_t *element_rtyp
     uint64_t offset = l->element_size * index; // (size unit byte) * index
     void *p = l->data + offset;
 
-    memmove(p, ref, l->element_size);
-
-    if (!gc_barrier_get() || element_rtype->last_ptr == 0) {
-        return;
-    }
-
-    uint8_t *gc_bits = RTDATA(element_rtype->malloc_gc_bits_offset);
-    if (element_rtype->malloc_gc_bits_offset == -1) {
-        gc_bits = (uint8_t *) &element_rtype->gc_bits;
-    }
-    uint64_t slot_count = align_up(element_rtype->storage_size, POINTER_SIZE) / POINTER_SIZE;
-    for (uint64_t i = 0; i < slot_count; ++i) {
-        if (!bitmap_test(gc_bits, i)) {
-            continue;
-        }
-        void **slot = (void **) ((uint8_t *) p + (i * POINTER_SIZE));
-        rti_write_barrier_ptr(slot, *slot, false);
-    }
+    rti_write_barrier_rtype(p, ref, element_rtype);
 }
 
 uint64_t rt_vec_length(n_vec_t *l) {
-- 
2.43.0


From e02d6e4a0b0682c66f060441b87a1483db1780a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 58/97] fix: use the write barrier when a value containing
 references is stored

Assignments of structs, tuples, unions, interfaces and similar values to
heap slots and globals copied the bytes without telling the collector.
---
 runtime/nutils/nutils.c |  6 ++++
 runtime/nutils/nutils.h |  2 ++
 src/linear.c            | 74 +++++++++++++++++++++++++++++++++++++----
 src/lir.h               |  3 +-
 4 files changed, 78 insertions(+), 7 deletions(-)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 385b68e..0477f95 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -929,6 +929,12 @@ void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
     memmove(dst, src, rtype->storage_size);
 }
 
+void write_barrier_rtype(void *dst, void *src, int64_t rhash) {
+    rtype_t *rtype = rt_find_rtype(rhash);
+    assert(rtype);
+    rti_write_barrier_rtype(dst, src, rtype);
+}
+
 void ptr_valid(void *ptr) {
     // 修改状态避免抢占
     DEBUGF("[ptr_valid] ptr=%p", ptr);
diff --git a/runtime/nutils/nutils.h b/runtime/nutils/nutils.h
index 329019a..285c9e8 100644
--- a/runtime/nutils/nutils.h
+++ b/runtime/nutils/nutils.h
@@ -71,6 +71,8 @@ void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype);
 
 void write_barrier(void *slot, void *new_obj);
 
+void write_barrier_rtype(void *dst, void *src, int64_t rhash);
+
 void ptr_valid(void *ptr);
 
 void rt_panic(n_string_t msg);
diff --git a/src/linear.c b/src/linear.c
index 4302d4e..00dae18 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -393,6 +393,53 @@ static lir_operand_t *linear_super_move(module_t *m, type_t t, lir_operand_t *ds
     return dst;
 }
 
+static bool type_has_pointer(type_t t) {
+    if (t.kind == TYPE_ARR) {
+        return type_has_pointer(t.array->element_type);
+    }
+
+    if (t.kind == TYPE_STRUCT) {
+        for (int i = 0; i < t.struct_->properties->length; ++i) {
+            struct_property_t *p = ct_list_value(t.struct_->properties, i);
+            if (type_has_pointer(p->type)) {
+                return true;
+            }
+        }
+        return false;
+    }
+
+    if (t.kind == TYPE_TUPLE) {
+        for (int i = 0; i < t.tuple->elements->length; ++i) {
+            type_t *element = ct_list_value(t.tuple->elements, i);
+            if (type_has_pointer(*element)) {
+                return true;
+            }
+        }
+        return false;
+    }
+
+    return t.storage_kind == STORAGE_KIND_IND || is_gc_alloc(t.kind);
+}
+
+/**
+ * dst 可能位于 heap 或者 global data 中, 如果 t 中包含指针, 则需要经过 write barrier 写入
+ */
+static void linear_barrier_move(module_t *m, type_t t, lir_operand_t *dst, lir_operand_t *src) {
+    if (t.storage_kind != STORAGE_KIND_IND || !type_has_pointer(t)) {
+        linear_super_move(m, t, dst, src);
+        return;
+    }
+
+    // 同 lir_memory_mov, dst 和 src 中存储的是地址, rt call 参数不能是 struct
+    lir_operand_t *dst_ptr = temp_var_operand(m, type_kind_new(TYPE_ANYPTR));
+    OP_PUSH(dst->assert_type == LIR_OPERAND_SYMBOL_VAR ? lir_op_lea(dst_ptr, dst) : lir_op_move(dst_ptr, dst));
+
+    lir_operand_t *src_ptr = temp_var_operand(m, type_kind_new(TYPE_ANYPTR));
+    OP_PUSH(src->assert_type == LIR_OPERAND_SYMBOL_VAR ? lir_op_lea(src_ptr, src) : lir_op_move(src_ptr, src));
+
+    push_rt_call(m, RT_CALL_WRITE_BARRIER_RTYPE, NULL, 3, dst_ptr, src_ptr, int_operand(type_hash(t)));
+}
+
 static lir_operand_t *linear_default_string(module_t *m, type_t t, lir_operand_t *target) {
     if (!target) {
         target = temp_var_operand_with_alloc(m, t);
@@ -1143,7 +1190,7 @@ static void linear_vec_assign(module_t *m, ast_assign_stmt_t *stmt) {
             target = indirect_addr_operand(m, vec_element_type, target, 0);
         }
 
-        linear_super_move(m, vec_element_type, target, src);
+        linear_barrier_move(m, vec_element_type, target, src);
     }
 }
 
@@ -1152,7 +1199,7 @@ static void linear_vec_assign(module_t *m, ast_assign_stmt_t *stmt) {
  */
 static void linear_assign_right(module_t *m, ast_assign_stmt_t *stmt, lir_operand_t *target) {
     lir_operand_t *src = linear_expr(m, stmt->right, NULL);
-    linear_super_move(m, stmt->left.type, target, src);
+    linear_barrier_move(m, stmt->left.type, target, src);
 }
 
 static void linear_array_assign(module_t *m, ast_assign_stmt_t *stmt) {
@@ -1218,7 +1265,6 @@ static void linear_env_assign(module_t *m, ast_assign_stmt_t *stmt) {
     // 不需要 ref，直接 move 过去就行
     lir_operand_t *src = linear_expr(m, stmt->right, NULL);
     //    lir_operand_t *src_ref = lea_operand_pointer(m, src);
-    uint64_t size = stmt->right.type.storage_size;
 
     lir_operand_t *values_operand = linear_inline_env_values(m);
 
@@ -1233,7 +1279,7 @@ static void linear_env_assign(module_t *m, ast_assign_stmt_t *stmt) {
         OP_PUSH(lir_op_move(dst_ptr, env_offset_operand)); // mov env_values[0] -> dst_ptr
 
         if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
-            linked_concat(m->current_closure->operations, lir_memory_mov(m, size, dst_ptr, src));
+            linear_barrier_move(m, stmt->left.type, dst_ptr, src);
         } else {
             lir_operand_t *dst = indirect_addr_operand(m, stmt->left.type, dst_ptr, 0);
             OP_PUSH(lir_op_move(dst, src)); // dir
@@ -1268,7 +1314,7 @@ static void linear_map_assign(module_t *m, ast_assign_stmt_t *stmt) {
         if (stmt->right.type.storage_kind != STORAGE_KIND_IND) {
             dst = indirect_addr_operand(m, stmt->right.type, dst, 0);
         }
-        linear_super_move(m, stmt->right.type, dst, src);
+        linear_barrier_move(m, stmt->right.type, dst, src);
     }
 }
 
@@ -1331,11 +1377,14 @@ static void linear_ia_ptr_assign(module_t *m, ast_assign_stmt_t *stmt) {
     lir_operand_t *dst;
     if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
         dst = ptr_operand; // super_move 会自动进行全尺寸移动
+    } else if (is_gc_alloc(stmt->left.type.kind)) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, ptr_operand, src);
+        return;
     } else {
         dst = indirect_addr_operand(m, stmt->left.type, ptr_operand, 0);
     }
 
-    linear_super_move(m, stmt->left.type, dst, src);
+    linear_barrier_move(m, stmt->left.type, dst, src);
 }
 
 /**
@@ -1359,6 +1408,19 @@ static void linear_ident_assign(module_t *m, ast_assign_stmt_t *stmt) {
         return;
     }
 
+    // 全局变量在 gc 开始时就已经扫描完成
+    if (is_gc_alloc(stmt->left.type.kind) && dst->assert_type == LIR_OPERAND_SYMBOL_VAR) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, lea_operand_pointer(m, dst), src);
+        return;
+    }
+
+    symbol_t *s = symbol_table_get(((ast_ident *) stmt->left.value)->literal);
+    ast_var_decl_t *symbol_var = s->ast_value;
+    if (!s->is_local || symbol_var->type.in_heap) {
+        linear_barrier_move(m, stmt->left.type, dst, src);
+        return;
+    }
+
     linear_super_move(m, stmt->left.type, dst, src);
 }
 
diff --git a/src/lir.h b/src/lir.h
index 2386852..b01fca5 100644
--- a/src/lir.h
+++ b/src/lir.h
@@ -64,6 +64,7 @@
 #define RT_CALL_UNSAFE_VEC_NEW "rt_unsafe_vec_new"
 
 #define RT_CALL_WRITE_BARRIER "write_barrier"
+#define RT_CALL_WRITE_BARRIER_RTYPE "write_barrier_rtype"
 
 #define RT_CALL_PTR_VALID "ptr_valid"
 
@@ -252,7 +253,7 @@ static inline bool is_rtcall(string target) {
     return str_equal(target, RT_CALL_SET_ADD) || str_equal(target, RT_CALL_SET_DELETE) ||
            str_equal(target, RT_CALL_SET_CONTAINS) || str_equal(target, RT_CALL_SET_NEW) ||
            str_equal(target, RT_CALL_VEC_CAP) || str_equal(target, RT_CALL_ARRAY_NEW) ||
-           str_equal(target, RT_CALL_WRITE_BARRIER) ||
+           str_equal(target, RT_CALL_WRITE_BARRIER) || str_equal(target, RT_CALL_WRITE_BARRIER_RTYPE) ||
            str_equal(target, RT_CALL_PTR_VALID) ||
            str_equal(target, RT_CALL_MAP_NEW) || str_equal(target, RT_CALL_MAP_ACCESS) ||
            str_equal(target, RT_CALL_MAP_ASSIGN) || str_equal(target, RT_CALL_MAP_LENGTH) ||
-- 
2.43.0


From 10926004b6a7e0dab4fd679297d156fb78c1a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 59/97] fix: trace the value of an any

Only the type word was marked as a reference, so an any variable moved
to the heap by a closure did not keep its value alive.
---
 src/rtype.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rtype.h b/src/rtype.h
index c3be0e5..b3bb922 100644
--- a/src/rtype.h
+++ b/src/rtype.h
@@ -485,6 +485,7 @@ static inline rtype_t rtype_any(type_t t) {
     };
 
     bitmap_set(CTDATA(rtype.malloc_gc_bits_offset), 0);
+    bitmap_set(CTDATA(rtype.malloc_gc_bits_offset), 1);
 
     return rtype;
 }
-- 
2.43.0


From 943febbb693fef19b05ebd5aa1baa16b75870e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 60/97] fix: scan objects allocated before the stack of the
 coroutine is scanned

Such an object was marked without being scanned, while the references
it is initialised with may not have been marked yet.
---
 runtime/allocator.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/allocator.c b/runtime/allocator.c
index e893e2d..d110bd3 100644
--- a/runtime/allocator.c
+++ b/runtime/allocator.c
@@ -1377,8 +1377,14 @@ void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
     }
 
     // 如果当前写屏障开启，则新分配的对象都是黑色(不在工作队列且被 span 标记), 避免在本轮被 GC 清理
+    // 初始化新对象时不经过写屏障, 当前 stack 还没有扫描时, 被写入的 obj 可能是白色, 所以需要在 mark done 阶段再进行扫描
     if (gc_barrier_get()) {
-        mark_ptr_black(ptr);
+        coroutine_t *co = coroutine_get();
+        if (rtype && rtype->last_ptr > 0 && (!co || co->gc_black < memory->gc_count)) {
+            rt_linked_fixalloc_push(&global_gc_worklist, ptr);
+        } else {
+            mark_ptr_black(ptr);
+        }
     }
 
     //    TDEBUGF("[rti_gc_malloc] end p_index=%d, co=%p, result=%p, size=%d, hash=%d",
-- 
2.43.0


From 8cdad1826d6adce4b9d79d2d55a0f83ca94383c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 61/97] fix: write barrier for map growth, vector append and
 vector copy

---
 runtime/nutils/map.c |  6 +++---
 runtime/nutils/vec.c | 21 +++++++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/runtime/nutils/map.c b/runtime/nutils/map.c
index 4b4d14e..14c7660 100644
--- a/runtime/nutils/map.c
+++ b/runtime/nutils/map.c
@@ -52,9 +52,9 @@ void map_grow(n_map_t *m) {
 
     m->length = 0;
     m->capacity *= 2;
-    m->key_data = rti_array_new(key_rtype, m->capacity);
-    m->value_data = rti_array_new(value_rtype, m->capacity);
-    m->hash_table = rti_gc_malloc(sizeof(int64_t) * m->capacity, NULL);
+    rti_write_barrier_ptr(&m->key_data, rti_array_new(key_rtype, m->capacity), false);
+    rti_write_barrier_ptr(&m->value_data, rti_array_new(value_rtype, m->capacity), false);
+    rti_write_barrier_ptr(&m->hash_table, rti_gc_malloc(sizeof(int64_t) * m->capacity, NULL), false);
 
     // 对所有的 key 进行 rehash, i 就是 data_index
     for (int data_index = 0; data_index < old_map.length; ++data_index) {
diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 9300a82..1b711ed 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -326,6 +326,22 @@ n_vec_t rt_vec_slice(n_vec_t *l, int64_t start, int64_t end) {
 }
 
 
+/**
+ * dst 位于已经存在的 array 中, 需要经过 write barrier 写入
+ */
+static void rti_vec_move(void *dst, void *src, uint64_t count, rtype_t *element_rtype) {
+    uint64_t size = element_rtype->storage_size;
+    if (!gc_barrier_get() || element_rtype->last_ptr == 0) {
+        memmove(dst, src, count * size);
+        return;
+    }
+
+    for (uint64_t i = 0; i < count; ++i) {
+        uint64_t offset = (dst > src ? count - 1 - i : i) * size;
+        rti_write_barrier_rtype(dst + offset, src + offset, element_rtype);
+    }
+}
+
 void rt_vec_append(n_vec_t *dst, n_vec_t *src, int64_t element_hash) {
     rtype_t *element_rtype = rt_find_rtype(element_hash);
     assert(element_rtype);
@@ -335,7 +351,7 @@ void rt_vec_append(n_vec_t *dst, n_vec_t *src, int64_t element_hash) {
         rti_vec_grow(dst, element_rtype, dst->length + src->length + 1);
     }
 
-    memmove(dst->data + dst->length * dst->element_size, src->data, src->length * src->element_size);
+    rti_vec_move(dst->data + dst->length * dst->element_size, src->data, src->length, element_rtype);
     dst->length += src->length;
 }
 
@@ -440,7 +456,8 @@ uint64_t rt_vec_copy(n_vec_t *dst, n_vec_t src) {
     uint64_t copy_len = src.length < dst->length ? src.length : dst->length;
 
     if (copy_len > 0) {
-        memmove(dst->data, src.data, copy_len * src.element_size);
+        rtype_t *vec_rtype = rt_find_rtype(dst->hash);
+        rti_vec_move(dst->data, src.data, copy_len, rt_find_rtype(((int64_t *) RTDATA(vec_rtype->hashes_offset))[0]));
     }
 
     DEBUGF("[rt_vec_copy] copied %lu elements from %p to %p", copy_len, src, dst);
-- 
2.43.0


From b6f2db52d6b0de89236188edb6c840fd1330e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 62/97] fix: mark references moved through a channel during a
 collection

A message moves between stacks and the buffer without a write barrier.
---
 runtime/rt_chan.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index 2079b5c..fbc1b30 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -20,6 +20,22 @@ static inline bool buf_full(n_chan_t *ch) {
     return ((ch->buf_rear + 1) % ch->buf->length) == ch->buf_front;
 }
 
+/**
+ * msg 在 stack 与 buf 之间直接移动, 目标可能已经扫描完成, 所以 msg 中的 obj 需要进行标记
+ */
+static void msg_shade(void *msg_ptr, int64_t size) {
+    if (!msg_ptr || !gc_barrier_get()) {
+        return;
+    }
+
+    for (int64_t offset = 0; offset + POINTER_SIZE <= size; offset += POINTER_SIZE) {
+        addr_t value = fetch_addr_value((addr_t) msg_ptr + offset);
+        if (span_of(value)) {
+            shade_obj_grey((void *) value);
+        }
+    }
+}
+
 /**
  * 从队列头部取出元素
  */
@@ -28,6 +44,7 @@ static inline void buf_pop(n_chan_t *ch, void *msg_ptr) {
 
     if (msg_ptr) {
         rti_vec_access(ch->buf, ch->buf_front, msg_ptr);
+        msg_shade(msg_ptr, ch->msg_size);
     }
 
     ch->buf_front = (ch->buf_front + 1) % ch->buf->capacity;
@@ -173,6 +190,7 @@ static void rt_msg_transmit(coroutine_t *co, void *stack_ptr, void *msg_ptr, boo
     } else {
         memmove(msg_ptr, stack_ptr, size);
     }
+    msg_shade(msg_ptr, size);
 #ifdef __LINUX
     pthread_spin_unlock(&share_stack->owner_lock);
 #else
@@ -249,6 +267,7 @@ bool rt_chan_send(n_chan_t *chan, void *msg_ptr, bool try) {
         // 直接将 msg push 到 chan 中, 不阻塞当前 buf
         void *dst_ptr = buf_next_ref(chan);
 
+        msg_shade(msg_ptr, chan->msg_size);
         memmove(dst_ptr, msg_ptr, chan->msg_size);
 
         pthread_mutex_unlock(&chan->lock);
@@ -710,6 +729,7 @@ BUFRECV:
 BUFSEND:
     case_success = true;
     void *dst_ptr = buf_next_ref(c);
+    msg_shade(cas->msg_ptr, c->msg_size);
     memmove(dst_ptr, cas->msg_ptr, c->msg_size);
     selunlock(cases, lockorder, cases_count);
     goto RETC;
-- 
2.43.0


From 8385fe490779959ca3c3a4cd4e12677a15309801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:34 +0000
Subject: [PATCH 63/97] fix: keep the future of a running coroutine alive

A coroutine writes its result and error into its future when it ends. When
nobody holds the future the collector freed it first.
---
 runtime/collector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index c4dd6a5..cd79c2d 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -811,6 +811,11 @@ static void gc_work() {
             insert_gc_worklist(&share_p->gc_worklist, wait_co->arg);
         }
 
+        // go 返回的 future 可能没有被引用, 但是 co 退出时需要向 future 中写入 result 和 error
+        if (span_of((addr_t) wait_co->future)) {
+            insert_gc_worklist(&share_p->gc_worklist, wait_co->future);
+        }
+
         // 只有第一次 resume 时才会初始化 co, 申请堆栈，并且绑定对应的 p
         if (!wait_co->aco.inited) {
             DEBUGF("[runtime_gc.gc_work] co=%p, fn=%p not init, will skip", wait_co, wait_co->fn);
-- 
2.43.0


From b0779e49ed589318ba3080037fb4fa9b1db11976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:34 +0000
Subject: [PATCH 64/97] fix: keep a finished coroutine while its future can
 still be awaited

The collector freed finished coroutines although a reachable future still
pointed to them. The slot was reused, and awaiting the future waited for an
unrelated coroutine.
---
 runtime/collector.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/runtime/collector.c b/runtime/collector.c
index cd79c2d..335a39f 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -786,16 +786,8 @@ static void gc_work() {
             wait_co, wait_co->status, wait_co->main, wait_co->gc_black, memory->gc_count,
             &wait_co->aco);
 
+        // dead co 可能还会被 await, 所以在 gc_mark_done 中根据 future 是否存活进行清理
         if (wait_co->status == CO_STATUS_DEAD) {
-            DEBUGF("[runtime_gc.gc_work] co=%p, main=%d, status=dead, will remove",
-                   wait_co, wait_co->main);
-
-            coroutine_free(wait_co);
-
-            rt_linked_fixalloc_remove(&share_p->co_list, node);
-            DEBUGF("[runtime_gc.gc_work] co=%p, main=%d, status=dead, remove completed",
-                   wait_co, wait_co->main);
-
             continue;
         }
 
@@ -976,6 +968,33 @@ static void scan_global() {
     RDEBUGF("[runtime_gc.scan_global] scan global completed");
 }
 
+/**
+ * 标记已经完成(stw), 如果 future 没有被标记, 则不会再有 await 访问 dead co
+ */
+static void free_dead_coroutines() {
+    PROCESSOR_FOR(processor_list) {
+        rt_linked_node_t *current = p->co_list.head;
+        while (current->value != NULL) {
+            coroutine_t *co = current->value;
+            rt_linked_node_t *node = current;
+            current = current->succ;
+
+            if (co->status != CO_STATUS_DEAD) {
+                continue;
+            }
+
+            mspan_t *span = span_of((addr_t) co->future);
+            if (span && bitmap_test(span->gcmark_bits, ((addr_t) co->future - span->base) / span->obj_size)) {
+                continue;
+            }
+
+            DEBUGF("[runtime_gc.free_dead_coroutines] co=%p, main=%d, status=dead, will remove", co, co->main);
+            coroutine_free(co);
+            rt_linked_fixalloc_remove(&p->co_list, node);
+        }
+    }
+}
+
 /**
  * 处理剩余的 global gc worklist, 当前已经在 STW 了
  */
@@ -992,6 +1011,8 @@ static void gc_mark_done() {
         handle_gc_ptr(NULL, addr);
     }
 
+    free_dead_coroutines();
+
     DEBUGF("[runtime_gc.gc_mark_done] handle processor gc work list completed, will return");
 }
 
-- 
2.43.0


From b47f722863173ad6bb35d84e9b83e7a1ffbc8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:59 +0000
Subject: [PATCH 65/97] fix: read JSON integers exactly and reject values out
 of range

Integers were read through f64. Values above 2^53 lost digits, and values that
do not fit the target type were wrapped or truncated silently.
---
 std/json/json.n | 75 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/std/json/json.n b/std/json/json.n
index e3754c8..1b4c8ac 100644
--- a/std/json/json.n
+++ b/std/json/json.n
@@ -286,43 +286,35 @@ fn deserialize_t.parser(&self, anyptr p, ref<reflect.type_t> t):void! {
             unsafe.ptr_copy<bool>(p, &bool_val)
         }
         reflect.U8 -> {
-            var float_val = self.parser_number()
-            var u8_val = float_val as u8
+            var u8_val = self.parser_integer(0xFF, 0) as u8
             unsafe.ptr_copy<u8>(p, &u8_val)
         }
         reflect.U16 -> {
-            var float_val = self.parser_number()
-            var u16_val = float_val as u16
+            var u16_val = self.parser_integer(0xFFFF, 0) as u16
             unsafe.ptr_copy<u16>(p, &u16_val)
         }
         reflect.U32 -> {
-            var float_val = self.parser_number()
-            var u32_val = float_val as u32
+            var u32_val = self.parser_integer(0xFFFFFFFF, 0) as u32
             unsafe.ptr_copy<u32>(p, &u32_val)
         }
         reflect.U64 -> {
-            var float_val = self.parser_number()
-            var u64_val = float_val as u64
+            var u64_val = self.parser_integer(0xFFFFFFFFFFFFFFFF, 0) as u64
             unsafe.ptr_copy<u64>(p, &u64_val)
         }
         reflect.I8 -> {
-            var float_val = self.parser_number()
-            var i8_val = float_val as i8
+            var i8_val = self.parser_integer(0x7F, 0x80) as i8
             unsafe.ptr_copy<i8>(p, &i8_val)
         }
         reflect.I16 -> {
-            var float_val = self.parser_number()
-            var i16_val = float_val as i16
+            var i16_val = self.parser_integer(0x7FFF, 0x8000) as i16
             unsafe.ptr_copy<i16>(p, &i16_val)
         }
         reflect.I32 -> {
-            var float_val = self.parser_number()
-            var i32_val = float_val as i32
+            var i32_val = self.parser_integer(0x7FFFFFFF, 0x80000000) as i32
             unsafe.ptr_copy<i32>(p, &i32_val)
         }
         reflect.I64 -> {
-            var float_val = self.parser_number()
-            var i64_val = float_val as i64
+            var i64_val = self.parser_integer(0x7FFFFFFFFFFFFFFF, 0x8000000000000000) as i64
             unsafe.ptr_copy<i64>(p, &i64_val)
         }
         reflect.F32 -> {
@@ -568,6 +560,57 @@ fn deserialize_t.parser_number(&self):f64! {
     return result
 }
 
+// Integers are read digit by digit, because f64 holds only 53 bits of precision.
+// max and min are the magnitudes of the largest and the smallest value of the target type.
+fn deserialize_t.parser_integer(&self, u64 max, u64 min):u64! {
+    self.skip_whitespace()
+    var start = self.cursor
+    var token = self.parser_number_token()
+
+    var negative = token[0] == '-'.char()
+    u64 limit = max
+    int i = 0
+    if negative {
+        limit = min
+        i = 1
+    }
+
+    u64 value = 0
+    for i < token.len() {
+        if !self.is_digit(token[i]) {
+            // fraction or exponent, the value must still be an integer
+            self.cursor = start
+            var float_val = self.parser_number()
+            if negative {
+                float_val = -float_val
+            }
+            if float_val > 9007199254740992.0 {
+                throw errorf('number is out of range at position %d', start)
+            }
+            value = float_val as u64
+            if value as f64 != float_val {
+                throw errorf('number is not an integer at position %d', start)
+            }
+            break
+        }
+
+        u64 digit = (token[i] - '0'.char()) as u64
+        if digit > limit || value > (limit - digit) / 10 {
+            throw errorf('number is out of range at position %d', start)
+        }
+        value = value * 10 + digit
+        i += 1
+    }
+
+    if value > limit {
+        throw errorf('number is out of range at position %d', start)
+    }
+    if negative {
+        return 0 - value
+    }
+    return value
+}
+
 
 fn deserialize_t.parser_string(&self):string! {
     self.must(`"`)
-- 
2.43.0


From 0829e76f3e8c90b5d55e8fc23cad534bd012a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:59 +0000
Subject: [PATCH 66/97] fix: initialise the elements of deserialised JSON
 containers

Vectors, maps, nullable values and structs inside a vector or a map were read
into zeroed memory. Using them aborted the program.
---
 std/json/json.n | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/std/json/json.n b/std/json/json.n
index 1b4c8ac..01b01f9 100644
--- a/std/json/json.n
+++ b/std/json/json.n
@@ -406,7 +406,9 @@ fn deserialize_t.parser_vec(&self, anyptr p, ref<reflect.type_t> t):void! {
         }
 
         assert(rv.length < rv.capacity)
-        self.parser(rv.data + (rv.length * element_type.size) as anyptr, element_type)
+        var element_ptr = rv.data + (rv.length * element_type.size) as anyptr
+        init_value(element_ptr, element_type)
+        self.parser(element_ptr, element_type)
         rv.length += 1
 
         if self.consume(']') {
@@ -434,6 +436,7 @@ fn deserialize_t.parser_map(&self, anyptr p, ref<reflect.type_t> t):void! {
         string key = self.parser_string()
         var val_p = runtime.map_assign(p, &key as anyptr)
         self.must(':')
+        init_value(val_p, val_type)
         self.parser(val_p, val_type)
 
         self.skip_whitespace()
@@ -703,6 +706,29 @@ fn deserialize_t.parser_string(&self):string! {
     throw errorf('unterminated string at position %d', start)
 }
 
+// Gives new memory the default value of the type
+fn init_value(anyptr p, ref<reflect.type_t> t):void! {
+    match t.kind {
+        reflect.VEC -> runtime.vec_new_out(p, t.hash, t.hashes[0], 0)
+        reflect.MAP -> runtime.map_new_out(p, t.hash, t.hashes[0], t.hashes[1])
+        reflect.STRING -> runtime.vec_new_out(p, t.hash, @reflect_hash(u8), 0)
+        reflect.UNION -> {
+            var rv = p as ptr<reflect.union_t>
+            rv.rtype = reflect.typeof_hash(null_hash).r
+        }
+        reflect.ANY -> {
+            any any_val = null
+            unsafe.ptr_copy<any>(p, &any_val)
+        }
+        reflect.STRUCT -> {
+            for field in t.fields {
+                init_value(p + field.offset as anyptr, reflect.typeof_hash(field.hash))
+            }
+        }
+        _ -> {}
+    }
+}
+
 fn deserialize_t.parser_nullable(&self, anyptr p, ref<reflect.type_t> t):void! {
     self.skip_whitespace()
     if self.cursor >= self.data.len() {
@@ -714,6 +740,7 @@ fn deserialize_t.parser_nullable(&self, anyptr p, ref<reflect.type_t> t):void! {
     // default is null
     if self.data[self.cursor] == 'n'[0] {
         self.must('null')
+        rv.rtype = reflect.typeof_hash(null_hash).r
         return
     }
 
@@ -724,22 +751,7 @@ fn deserialize_t.parser_nullable(&self, anyptr p, ref<reflect.type_t> t):void! {
     var hash = t.hashes[0]
     var target_type = reflect.typeof_hash(hash)
 
-    // init rv value
-    match target_type.kind {
-        reflect.VEC -> {
-            var element_type = reflect.typeof_hash(target_type.hashes[0])
-            runtime.vec_new_out(&rv.value as anyptr, hash, element_type.hash, 0)
-        }
-        reflect.MAP -> {
-            var key_type = reflect.typeof_hash(target_type.hashes[0])
-            var value_type = reflect.typeof_hash(target_type.hashes[1])
-            runtime.map_new_out(&rv.value as anyptr, hash, key_type.hash, value_type.hash)
-        }
-        reflect.STRING -> {
-            runtime.vec_new_out(&rv.value as anyptr, hash, @reflect_hash(u8), 0)
-        }
-        _ -> {}
-    }
+    init_value(&rv.value as anyptr, target_type)
 
     var target_p = &rv.value as anyptr
     self.parser(target_p, target_type)
-- 
2.43.0


From 22ef6af0b79ea5f780ccf990136872681e5221a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:59 +0000
Subject: [PATCH 67/97] fix: reject JSON maps whose keys are not strings

Serialising such a map produced malformed text. Deserialising one stored string
objects as keys of another type.
---
 std/json/json.n | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/std/json/json.n b/std/json/json.n
index 01b01f9..8b7fc51 100644
--- a/std/json/json.n
+++ b/std/json/json.n
@@ -226,6 +226,9 @@ fn serialize_map(anyptr p, ref<reflect.type_t> t):[u8]! {
     var key_type = reflect.typeof_hash(rv.key_hash as int)
     var val_type = reflect.typeof_hash(rv.value_hash as int)
     var len = rv.length as int
+    if key_type.kind != reflect.STRING {
+        throw errorf('unsupported map key type `%s`', key_type.to_string())
+    }
 
     [u8] result = ['{'.char()]
     for int i = 0; i < len; i += 1 {
@@ -422,7 +425,9 @@ fn deserialize_t.parser_vec(&self, anyptr p, ref<reflect.type_t> t):void! {
 
 fn deserialize_t.parser_map(&self, anyptr p, ref<reflect.type_t> t):void! {
     self.enter_container()
-    var rv = p as ptr<reflect.map_t>
+    if t.hashes[0] != @reflect_hash(string) {
+        throw errorf('unsupported map key type `%s`', reflect.typeof_hash(t.hashes[0]).to_string())
+    }
     self.must('{')
     if self.consume('}') {
         self.leave_container()
-- 
2.43.0


From 369eaa6d17d9bbf7ae89387ca14206ea1aa44411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:38 +0000
Subject: [PATCH 68/97] fix: round JSON numbers once

The integer and the fraction were rounded separately, so that some decimals
came out one unit off. Fractions with more than 308 digits became NaN.
---
 std/json/json.n | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/std/json/json.n b/std/json/json.n
index 8b7fc51..747ea0e 100644
--- a/std/json/json.n
+++ b/std/json/json.n
@@ -16,6 +16,7 @@ var number_hash = @reflect_hash(number)
 
 const DEFAULT_MAX_DEPTH = 256
 const DEFAULT_MAX_BYTES = 16777216
+const MAX_MANTISSA = 100000000000000000
 
 // Convert object to json string
 pub fn serialize<T>(T object):string! {
@@ -488,40 +489,41 @@ fn deserialize_t.parser_number(&self):f64! {
         throw errorf('invalid number format at position %d', self.cursor)
     }
     
-    var integer_part = 0.0
+    // the digits are collected as one integer and scaled once at the end, so that the result is rounded only once
+    u64 mantissa = 0
+    int scale = 0
     
     // JSON forbids leading zeroes except for the value zero itself.
     if self.data[self.cursor] == '0'.char() {
-        integer_part = integer_part * 10.0 + (self.data[self.cursor] - '0'.char()) as f64
         self.cursor += 1
         if self.cursor < len && self.is_digit(self.data[self.cursor]) {
             throw errorf('leading zero in number at position %d', self.cursor)
         }
     } else {
         for self.cursor < len && self.is_digit(self.data[self.cursor]) {
-            integer_part = integer_part * 10.0 + (self.data[self.cursor] - '0'.char()) as f64
+            if mantissa < MAX_MANTISSA {
+                mantissa = mantissa * 10 + (self.data[self.cursor] - '0'.char()) as u64
+            } else {
+                scale += 1
+            }
             self.cursor += 1
         }
     }
     
-    var result = integer_part
-    
     // parsing optional fractional parts
     if self.cursor < len && self.data[self.cursor] == '.'.char() {
         self.cursor += 1
         if self.cursor >= len || !self.is_digit(self.data[self.cursor]) {
             throw errorf('expected digit after decimal point at position %d', self.cursor)
         }
-        var decimal_part = 0.0
-        var decimal_places = 1.0
         
         for self.cursor < len && self.is_digit(self.data[self.cursor]) {
-            decimal_places *= 10.0
-            decimal_part = decimal_part * 10.0 + (self.data[self.cursor] - '0'.char()) as f64
+            if mantissa < MAX_MANTISSA {
+                mantissa = mantissa * 10 + (self.data[self.cursor] - '0'.char()) as u64
+                scale -= 1
+            }
             self.cursor += 1
         }
-        
-        result += decimal_part / decimal_places
     }
     
     // parsing the optional index component
@@ -549,18 +551,24 @@ fn deserialize_t.parser_number(&self):f64! {
             }
         }
         
-        var exp_multiplier = 1.0
-        for int i = 0; i < exponent; i += 1 {
-            exp_multiplier *= 10.0
-        }
-        
         if exp_negative {
-            result /= exp_multiplier
+            scale -= exponent
         } else {
-            result *= exp_multiplier
+            scale += exponent
         }
     }
     
+    var result = mantissa as f64
+    var multiplier = 1.0
+    for int i = 0; i < scale || i < -scale; i += 1 {
+        multiplier *= 10.0
+    }
+    if scale < 0 {
+        result /= multiplier
+    } else if mantissa > 0 {
+        result *= multiplier
+    }
+    
     if negative {
         result = -result
     }
-- 
2.43.0


From 74da1b5810d015dbf285e35ec26ee20fa8a58c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:33 +0000
Subject: [PATCH 69/97] fix: reject arithmetic and ordering on operands that
 have none

Two operands of the same struct, map, tuple or function type were accepted by
+ - * / and by < <= > >=, and the back end then computed on their addresses.
Subtracting strings stopped the compiler with an assertion.
---
 src/semantic/infer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 468a665..c8c6f9e 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1092,7 +1092,19 @@ static type_t infer_binary(module_t *m, ast_binary_expr_t *expr, type_t target_t
                       ast_expr_op_str[expr->op]);
     }
 
+    bool has_order = is_number(left_type.kind) || left_type.kind == TYPE_STRING || left_type.kind == TYPE_BOOL ||
+                     left_type.kind == TYPE_ENUM || left_type.kind == TYPE_ANYPTR || left_type.kind == TYPE_PTR;
+
+    if (expr->op == AST_OP_LT || expr->op == AST_OP_LE || expr->op == AST_OP_GT || expr->op == AST_OP_GE) {
+        INFER_ASSERTF(has_order, "binary operator '%s' cannot use with type '%s'",
+                      ast_expr_op_str[expr->op], type_format(left_type));
+    }
+
     if (ast_is_arithmetic_op(expr->op)) {
+        bool can_calc = is_number(left_type.kind) || left_type.kind == TYPE_ANYPTR || left_type.kind == TYPE_PTR ||
+                        (left_type.kind == TYPE_STRING && expr->op == AST_OP_ADD);
+        INFER_ASSERTF(can_calc, "binary operator '%s' cannot use with type '%s'",
+                      ast_expr_op_str[expr->op], type_format(left_type));
         return left_type;
     }
 
-- 
2.43.0


From cfce30d4066076d64493e0dac1dfb50d26fe3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:33 +0000
Subject: [PATCH 70/97] fix: reject the complement of a value that is not an
 integer

---
 src/semantic/infer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index c8c6f9e..4d0d991 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1664,6 +1664,11 @@ static type_t infer_unary(module_t *m, ast_unary_expr_t *expr, type_t target_typ
         INFER_ASSERTF(false, "neg(-) must use in number，actual '%s'", type_format(operand_type));
     }
 
+    if (expr->op == AST_OP_BNOT) {
+        INFER_ASSERTF(is_integer(operand_type.kind), "bitwise not(~) must use in integer, actual '%s'",
+                      type_format(operand_type));
+    }
+
     // &var
     if (expr->op == AST_OP_LA) {
         INFER_ASSERTF(expr->operand.assert_type != AST_EXPR_LITERAL && expr->operand.assert_type != AST_CALL,
-- 
2.43.0


From 56bc291516d5a96f0a01ac10aca05864863bffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:33 +0000
Subject: [PATCH 71/97] fix: reject a slice of a value that is not a vec or a
 string

---
 src/semantic/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 4d0d991..5f454e6 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1842,6 +1842,8 @@ static type_t infer_vec_repeat_new(module_t *m, ast_expr_t *expr, type_t target_
 
 static type_t infer_vec_slice(module_t *m, ast_vec_slice_t *slice) {
     type_t vec_type = infer_right_expr(m, &slice->left, type_kind_new(TYPE_UNKNOWN));
+    INFER_ASSERTF(vec_type.kind == TYPE_VEC || vec_type.kind == TYPE_STRING, "cannot slice type '%s'",
+                  type_format(vec_type));
     type_t start_type = infer_right_expr(m, &slice->start, type_integer_t_new());
     type_t end_type = infer_right_expr(m, &slice->end, type_integer_t_new());
 
-- 
2.43.0


From 1ab619c25577b627f78279d5022112dfde9f6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:33 +0000
Subject: [PATCH 72/97] fix: require a variant when a tagged union is tested
 with is

---
 src/semantic/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 5f454e6..d864062 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1598,6 +1598,8 @@ static type_t infer_is_expr(module_t *m, ast_is_expr_t *is_expr) {
         if (is_expr->union_tag) {
             INFER_ASSERTF(t.kind == TYPE_TAGGED_UNION, "unexpected is expr");
             infer_tagged_union_element(m, is_expr->union_tag, t);
+        } else {
+            INFER_ASSERTF(t.kind != TYPE_TAGGED_UNION, "'is' on %s must use a variant", type_format(t));
         }
     }
 
-- 
2.43.0


From e42bdc562f010ad24236b0997924a9bb62b2901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:33 +0000
Subject: [PATCH 73/97] fix: reject the conversion of anyptr to an interface

---
 src/semantic/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index d864062..6189ba1 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1152,6 +1152,8 @@ static type_t infer_as_expr(module_t *m, ast_expr_t *expr) {
 
     // anyptr 可以 as 为任意类型
     if (as_expr->src.type.kind == TYPE_ANYPTR && !is_float(target_type.kind)) {
+        INFER_ASSERTF(target_type.kind != TYPE_INTERFACE, "cannot convert anyptr to interface '%s'",
+                      type_format(target_type));
         return target_type;
     }
 
-- 
2.43.0


From c9a664801fad657573cbc6fadd083a505b297fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 74/97] fix: tell different interface types apart

Two interface types always compared equal, so a value of one interface could
be used where another was expected and its methods were called through the
wrong table.
---
 src/semantic/infer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 6189ba1..c0cf251 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -711,6 +711,14 @@ bool type_compare_visited(type_t dst, type_t src, table_t *visited) {
         return true;
     }
 
+    if (dst.kind == TYPE_INTERFACE) {
+        if (dst.ident && src.ident && !str_equal(dst.ident, src.ident)) {
+            return false;
+        }
+
+        return type_compare_ident_args_visited(dst.args, src.args, visited);
+    }
+
     if (dst.kind == TYPE_REF || dst.kind == TYPE_PTR) {
         type_t left_pointer = dst.ptr->value_type;
         type_t right_pointer = src.ptr->value_type;
-- 
2.43.0


From 51b027b1cc140d6ea79e72195c23c62e73e17db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 75/97] fix: reject an array literal longer than its array

---
 src/semantic/infer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index c0cf251..9702c76 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1889,6 +1889,10 @@ static type_t infer_vec_new(module_t *m, ast_expr_t *expr, type_t target_type, t
             return reduction_type(m, result);
         }
 
+        INFER_ASSERTF(vec_new->elements->length <= type_array->length,
+                      "array literal has %d elements, but the array length is %ld",
+                      vec_new->elements->length, (long) type_array->length);
+
         for (int i = 0; i < vec_new->elements->length; ++i) {
             ast_expr_t *item_expr = ct_list_value(vec_new->elements, i);
             infer_right_expr(m, item_expr, type_array->element_type);
-- 
2.43.0


From bf34c65a3740d8776833cc49d478fb2b600e46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 76/97] fix: reject two parameters with the same name

---
 src/semantic/analyzer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index d3fcb3a..09ad1d6 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -1144,6 +1144,10 @@ static void analyzer_global_fndef(module_t *m, ast_fndef_t *fndef) {
     for (int i = 0; i < fndef->params->length; ++i) {
         ast_var_decl_t *param = ct_list_value(fndef->params, i);
 
+        if (!str_equal(param->ident, "_")) {
+            analyzer_redeclare_check(m, param->ident);
+        }
+
         // type 中引用了 typedef ident 到话,同样需要更新引用
         analyzer_type(m, &param->type);
 
@@ -1319,6 +1323,10 @@ static void analyzer_local_fndef(module_t *m, ast_fndef_t *fndef) {
     for (int i = 0; i < fndef->params->length; ++i) {
         ast_var_decl_t *param = ct_list_value(fndef->params, i);
 
+        if (!str_equal(param->ident, "_")) {
+            analyzer_redeclare_check(m, param->ident);
+        }
+
         // type 中引用了 typedef ident 到话,同样需要更新引用
         analyzer_type(m, &param->type);
 
-- 
2.43.0


From 37d81f5ef19d9fcfa6abdf5637906999c3e1602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 77/97] fix: reject an assignment to a call

---
 src/semantic/infer.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 9702c76..1a2e318 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -3565,10 +3565,6 @@ static type_t infer_left_expr(module_t *m, ast_expr_t *expr) {
             type = infer_env_access(m, expr->value);
             break;
         }
-        case AST_CALL: {
-            type = infer_call(m, expr->value, type_kind_new(TYPE_UNKNOWN), true);
-            break;
-        }
         case AST_EXPR_UNARY: {
             // only support star
             ast_unary_expr_t *unary_expr = expr->value;
-- 
2.43.0


From 961e0238ef2bad09e8d0875cae57b0f22efb8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 78/97] fix: require the value of a tagged union variant that
 carries one

---
 src/semantic/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 1a2e318..33c4413 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -3040,6 +3040,8 @@ static type_t infer_tagged_union_new(module_t *m, ast_expr_t *expr, type_t targe
     // check arg match
     if (tagged_new->arg) {
         infer_right_expr(m, tagged_new->arg, found->type);
+    } else {
+        INFER_ASSERTF(found->type.kind == TYPE_VOID, "variant '%s' requires a value", tagged_new->tagged_name);
     }
 
     // 返回类型是 enum 类型
-- 
2.43.0


From 899507b07f0001c7326a328d96144fcfabd90569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 79/97] fix: reject a void value as the argument of a generic
 function

---
 src/semantic/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 33c4413..2d878ef 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -773,6 +773,8 @@ static table_t *generics_args_table(module_t *m, ast_fndef_t *temp_fn, ast_call_
             ast_expr_t *arg = ct_list_value(call->args, i);
             type_t arg_type = infer_right_expr(m, arg, type_kind_new(TYPE_UNKNOWN));
 
+            INFER_ASSERTF(arg_type.kind != TYPE_VOID, "cannot use void as argument");
+
             type_t *formal_type = select_generics_fn_param(temp_fn, i + formal_param_offset, is_spread);
             INFER_ASSERTF(formal_type, "too many arguments");
 
-- 
2.43.0


From 2aff831f2e5bd6bc671097759a77c152ceba0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:25:48 +0000
Subject: [PATCH 80/97] fix: reject a variant of another tagged union in is and
 match

---
 src/semantic/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 2d878ef..71dc381 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -2962,6 +2962,9 @@ static void infer_tagged_union_element(module_t *m, ast_expr_t *expr, type_t tar
         }
     }
     tagged_element->union_type = reduction_type(m, tagged_element->union_type);
+    INFER_ASSERTF(target_type.kind == TYPE_UNKNOWN || type_compare(target_type, tagged_element->union_type),
+                  "type inconsistency, expect=%s, actual=%s", type_format(target_type),
+                  type_format(tagged_element->union_type));
 
     // 确保 enum 类型已经 reduction
     struct type_tagged_union_t *type_union = tagged_element->union_type.tagged_union;
-- 
2.43.0


From 0a85570c079fb2be1a7b2b01450414779625b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:09 +0000
Subject: [PATCH 81/97] fix: report end of stream from large buffered reads

A read at least as large as the buffer goes straight to the source and passed
on its empty read at the end of a file, so read_exact never returned.
---
 std/io/buf.n | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/std/io/buf.n b/std/io/buf.n
index b5834b1..02488aa 100644
--- a/std/io/buf.n
+++ b/std/io/buf.n
@@ -77,7 +77,12 @@ pub fn reader<T>.read(&self, [u8] buf):int! {
         // if request buffer size larger than internal buffer
         // read directly to avoid copy
         if buf.len() >= self.buf.len() {
-            return self.rd.read(buf)
+            int direct = self.rd.read(buf)
+            if direct == 0 {
+                self.eof = true
+                throw errorf('EOF')
+            }
+            return direct
         }
 
         // fill internal buffer
-- 
2.43.0


From 7131b3183b4d25ff54d1b0e4d5cd451cec71982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:09 +0000
Subject: [PATCH 82/97] fix: an empty buffered read is not the end of the
 stream

---
 std/io/buf.n | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/std/io/buf.n b/std/io/buf.n
index 02488aa..fbd709e 100644
--- a/std/io/buf.n
+++ b/std/io/buf.n
@@ -64,12 +64,7 @@ pub fn reader<T>.fill(&self):void! {
 #where T:io.reader
 pub fn reader<T>.read(&self, [u8] buf):int! {
     if buf.len() == 0 {
-        if self.buffered() > 0 {
-            return 0
-        }
-
-        self.eof = true
-        throw errorf('EOF')
+        return 0
     }
 
     // buffer is empty, need to read from underlying reader
-- 
2.43.0


From d904e91ad17231f2205c7688b61c0d248314fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:09 +0000
Subject: [PATCH 83/97] fix: keep the result of read_until unchanged by later
 reads

The result shared the reader's buffer, which the next read overwrites.
---
 std/io/buf.n | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/io/buf.n b/std/io/buf.n
index fbd709e..421e272 100644
--- a/std/io/buf.n
+++ b/std/io/buf.n
@@ -122,20 +122,20 @@ pub fn reader<T>.read_until(&self, u8 delim):[u8] {
 
         // found delim
         if i >= 0 {
-            result = self.buf.slice(self.r, self.r + i + 1)
+            result.append(self.buf.slice(self.r, self.r + i + 1))
             self.r += i + 1 // move read pointer
             return result
         }
 
         if has_error {
-            result = self.buf.slice(self.r, self.w)
+            result.append(self.buf.slice(self.r, self.w))
             self.r = self.w
             return result
         }
 
         // buf is already full of data, without self.r for read consumption
         if self.buffered() >= self.buf.len() {
-            result = self.buf
+            result.append(self.buf)
             self.r = self.w
             // throw errorf('buffer full')
             return result
-- 
2.43.0


From 7a1490df2afd003ea41f0b921eecb151022d9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:09 +0000
Subject: [PATCH 84/97] fix: read a line longer than the buffer as one line

---
 std/io/buf.n | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/std/io/buf.n b/std/io/buf.n
index 421e272..9426feb 100644
--- a/std/io/buf.n
+++ b/std/io/buf.n
@@ -182,6 +182,10 @@ pub fn reader<T>.read_line(&self):string! {
     }
 
     var bytes = self.read_until('\n'.char())
+    // read_until stops early when the buffer holds no delimiter
+    for !self.eof && bytes.len() > 0 && bytes[bytes.len() - 1] != '\n'.char() {
+        bytes.append(self.read_until('\n'.char()))
+    }
     if self.eof && bytes.len() == 0 {
         // The underlying descriptor reached EOF with no complete line; the
         // caller must observe the terminal condition instead of an empty line.
-- 
2.43.0


From c586292b11945826cbe84131cb93b99c3dc28754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:09 +0000
Subject: [PATCH 85/97] fix: do not share the storage returned by read_all

The next write to the buffer changed the bytes returned earlier.
---
 std/io/io.n | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/io/io.n b/std/io/io.n
index 670aafc..d60b655 100644
--- a/std/io/io.n
+++ b/std/io/io.n
@@ -87,7 +87,8 @@ pub fn buffer.read_all(&self):[u8]! {
     }
 
     var result = self.buf.slice(self.offset, self.buf.len())
-    self.reset()
+    self.offset = 0
+    self.buf = []
 
     return result
 }
-- 
2.43.0


From cc5570019311cc9028a6dfb9e64496ca7047009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:20 +0000
Subject: [PATCH 86/97] fix: use 64 bit offsets for positioned file reads and
 writes

The offset passed through a 32 bit int, so a position of 2 GiB or more became
negative and the call used the current file position instead.
---
 runtime/nutils/fs.c | 10 +++++-----
 runtime/nutils/fs.h |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/runtime/nutils/fs.c b/runtime/nutils/fs.c
index 7619e1a..ae8b1d4 100644
--- a/runtime/nutils/fs.c
+++ b/runtime/nutils/fs.c
@@ -199,11 +199,11 @@ n_int_t rt_uv_fs_read(fs_context_t *ctx, n_vec_t buf) {
     return rt_uv_fs_read_at(ctx, buf, -1);
 }
 
-static void uv_async_fs_read_at(fs_context_t *ctx, int offset) {
+static void uv_async_fs_read_at(fs_context_t *ctx, int64_t offset) {
     uv_fs_read(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_read_cb);
 }
 
-n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset) {
+n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
     DEBUGF("[rt_uv_fs_read] read file: %ld", ctx->fd);
@@ -236,7 +236,7 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset) {
     return ctx->data_len;
 }
 
-static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int offset) {
+static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int64_t offset) {
     // 配置写入缓冲区并保存到 ctx 用于 fallback
     ctx->buf = uv_buf_init((char *) buf->data, buf->length);
     ctx->offset = offset; // 保存 offset 用于 fallback
@@ -245,7 +245,7 @@ static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int offset) {
     uv_fs_write(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_write_cb);
 }
 
-n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset) {
+n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
 
@@ -254,7 +254,7 @@ n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset) {
         return 0;
     }
 
-    DEBUGF("[fs_write_at] write file: %ld, offset: %d, data_len: %ld", ctx->fd, offset, buf.length);
+    DEBUGF("[fs_write_at] write file: %ld, offset: %ld, data_len: %ld", ctx->fd, offset, buf.length);
     ctx->req.data = co;
 
     global_waiting_send(uv_async_fs_write_at, ctx, &buf, (void *) (int64_t) offset);
diff --git a/runtime/nutils/fs.h b/runtime/nutils/fs.h
index 7fa2d29..8fac35b 100644
--- a/runtime/nutils/fs.h
+++ b/runtime/nutils/fs.h
@@ -29,9 +29,9 @@ n_int_t rt_uv_fs_write(fs_context_t *ctx, n_vec_t buf);
 
 void rt_uv_fs_close(fs_context_t *ctx);
 
-n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset);
+n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset);
 
-n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset);
+n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset);
 
 uv_stat_t rt_uv_fs_stat(fs_context_t *ctx);
 
-- 
2.43.0


From 2b7f8719769fd7a092115835baef4e10f25ad769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:29 +0000
Subject: [PATCH 87/97] fix: refuse to seek a closed file

The descriptor may already belong to another file, whose position was moved.
---
 std/fs/fs.n | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/std/fs/fs.n b/std/fs/fs.n
index c6a5af3..86ecb8a 100644
--- a/std/fs/fs.n
+++ b/std/fs/fs.n
@@ -62,6 +62,9 @@ pub fn file_t.read(&self, [u8] buf):int!
 pub fn file_t.write(&self, [u8] buf):int!
 
 pub fn file_t.seek(&self, int offset, int whence):int! {
+    if self.closed {
+        throw errorf('fd already closed')
+    }
     return syscall.seek(self.fd as int, offset, whence)
 }
 
-- 
2.43.0


From ee53ffd5d82d5df45f332b3a677232a628b036f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:29 +0000
Subject: [PATCH 88/97] fix: create directories named with a trailing slash

---
 std/os/os.n | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/os/os.n b/std/os/os.n
index e3a8156..d94e3f7 100644
--- a/std/os/os.n
+++ b/std/os/os.n
@@ -78,6 +78,11 @@ pub fn mkdirs(string dir, u32 mode):void! {
     var parent_dir = path.dir(dir)
     mkdirs(parent_dir, mode)
 
+    // dir/ and dir are the same directory
+    if path.exists(dir) {
+        return
+    }
+
     // parent dir is create, will create dir
     syscall.mkdir(dir, mode)
 }
-- 
2.43.0


From 0a9d0ff14a6561ff64f96807570a928fb042a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:29 +0000
Subject: [PATCH 89/97] fix: do not follow links when removing a directory tree

A link to a directory inside the tree emptied the directory it points to, and
a link to nothing was left behind.
---
 std/os/os.n | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/std/os/os.n b/std/os/os.n
index d94e3f7..e26b96f 100644
--- a/std/os/os.n
+++ b/std/os/os.n
@@ -104,6 +104,15 @@ pub fn rmdir(string dir, bool recursive):void! {
     var list = listdir(dir)
     for item in list {
         var fullpath = path.join(dir, item)
+        var islink = true
+        syscall.readlink(fullpath, vec<u8>.new(0, 1)) catch err {
+            islink = false
+        }
+        if islink {
+            syscall.unlink(fullpath) catch err {}
+            continue
+        }
+
         var isdir = path.isdir(fullpath)
         if isdir {
             rmdir(fullpath, true) // 递归删除其中的所有文件
-- 
2.43.0


From f771630b31a7b55f10be296aa6295a72a182fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:09 +0000
Subject: [PATCH 90/97] fix: open files for appending on Linux

O_APPEND had the value used on macOS, so appending overwrote the file from its
start.
---
 std/syscall/syscall.linux_amd64.n   | 2 +-
 std/syscall/syscall.linux_arm64.n   | 2 +-
 std/syscall/syscall.linux_riscv64.n | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/syscall/syscall.linux_amd64.n b/std/syscall/syscall.linux_amd64.n
index 842f8af..0ee5f05 100644
--- a/std/syscall/syscall.linux_amd64.n
+++ b/std/syscall/syscall.linux_amd64.n
@@ -66,7 +66,7 @@ pub int O_RDONLY = 0x0  // 只读模式
 pub int O_WRONLY = 0x1  // 只写模式
 pub int O_RDWR   = 0x2  // 读写模式
 
-pub int O_APPEND = 0x8  // 追加写入
+pub int O_APPEND = 0x400  // 追加写入
 pub int O_CREAT = 0x40 // 如果文件不存在则创建文件
 pub int O_EXCL   = 0x80 // 与 O_CREAT 一起使用，文件必须不存在
 pub int O_TRUNC  = 0x200 // 打开文件时清空文件内容
diff --git a/std/syscall/syscall.linux_arm64.n b/std/syscall/syscall.linux_arm64.n
index 471c7a1..f8e98ed 100644
--- a/std/syscall/syscall.linux_arm64.n
+++ b/std/syscall/syscall.linux_arm64.n
@@ -66,7 +66,7 @@ pub int O_RDONLY = 0x0  // 只读模式
 pub int O_WRONLY = 0x1  // 只写模式
 pub int O_RDWR   = 0x2  // 读写模式
 
-pub int O_APPEND = 0x8  // 追加写入
+pub int O_APPEND = 0x400  // 追加写入
 pub int O_CREAT = 0x40 // 如果文件不存在则创建文件
 pub int O_EXCL   = 0x80 // 与 O_CREAT 一起使用，文件必须不存在
 pub int O_TRUNC  = 0x200 // 打开文件时清空文件内容
diff --git a/std/syscall/syscall.linux_riscv64.n b/std/syscall/syscall.linux_riscv64.n
index d258d1b..1a754e1 100644
--- a/std/syscall/syscall.linux_riscv64.n
+++ b/std/syscall/syscall.linux_riscv64.n
@@ -66,7 +66,7 @@ pub int O_RDONLY = 0x0  // 只读模式
 pub int O_WRONLY = 0x1  // 只写模式
 pub int O_RDWR   = 0x2  // 读写模式
 
-pub int O_APPEND = 0x8  // 追加写入
+pub int O_APPEND = 0x400  // 追加写入
 pub int O_CREAT = 0x40 // 如果文件不存在则创建文件
 pub int O_EXCL   = 0x80 // 与 O_CREAT 一起使用，文件必须不存在
 pub int O_TRUNC  = 0x200 // 打开文件时清空文件内容
-- 
2.43.0


From f98f849ac9fdaf8a5b91648db2578cdf245cbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:03:57 +0000
Subject: [PATCH 91/97] fix: remove a link that points to nothing

---
 std/os/os.n | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/std/os/os.n b/std/os/os.n
index e26b96f..99abe3e 100644
--- a/std/os/os.n
+++ b/std/os/os.n
@@ -90,7 +90,10 @@ pub fn mkdirs(string dir, u32 mode):void! {
 // use remove file
 pub fn remove(string full_path):void! {
     if !path.exists(full_path) {
-        return
+        // a link to nothing is still there to be removed
+        syscall.readlink(full_path, vec<u8>.new(0, 1)) catch err {
+            return
+        }
     }
 
     syscall.unlink(full_path)
-- 
2.43.0


From caab3f9ab607e3b23a246f415a11d07ba452e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:22 +0000
Subject: [PATCH 92/97] fix: keep the buffer of a pending read when the
 connection is written

A read that waits for data and a write on the same connection shared one
buffer field.  The received bytes went into the memory that was being
sent.
---
 runtime/nutils/tcp.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 617b86e..c8c1e79 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -29,6 +29,7 @@ typedef struct {
     uv_timer_t timer;
     int ref_count;
     n_vec_t buf;
+    n_vec_t write_buf;
 } inner_conn_t;
 
 typedef struct {
@@ -284,8 +285,8 @@ int64_t rt_uv_tcp_read(n_tcp_conn_t *n_conn, n_vec_t buf) {
 
 static void uv_async_tcp_write(inner_conn_t *conn) {
     uv_buf_t write_buf = {
-            .base = (void *) conn->buf.data,
-            .len = conn->buf.length,
+            .base = (void *) conn->write_buf.data,
+            .len = conn->write_buf.length,
     };
     conn->write_req.data = conn;
 
@@ -307,7 +308,7 @@ int64_t rt_uv_tcp_write(n_tcp_conn_t *n_conn, n_vec_t buf) {
     inner_conn_t *conn = n_conn->conn;
     conn->co = co;
     conn->handle.data = conn;
-    conn->buf = buf;
+    conn->write_buf = buf;
 
     global_waiting_send(uv_async_tcp_write, conn, 0, 0);
 
-- 
2.43.0


From 813d735996db7723b56e194e802a26974ec872c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:22 +0000
Subject: [PATCH 93/97] fix: resume the coroutine when listening fails

The error was recorded, but the coroutine that called listen was never
made ready again.
---
 runtime/nutils/tcp.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index c8c1e79..3e9f6d1 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -517,7 +517,6 @@ static void uv_async_tcp_listen(n_tcp_server_t *server) {
     if (result) {
         // 端口占用等错误
         rti_co_throw(server->inner->listen_co, tlsprintf("listen failed: %s", uv_strerror(result)), false);
-        return;
     }
 
     co_ready(server->inner->listen_co);
-- 
2.43.0


From beb7416b2b0590d217bcc57262a11ff007cd2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:22 +0000
Subject: [PATCH 94/97] fix: report a failed write of a connection to the
 coroutine that wrote

The result of a write was dropped, so a write to a broken connection
returned the full length.  The waiting coroutine was kept in a field that
a close from another coroutine overwrites: the writer then never resumed
and the closing coroutine was made ready twice.
---
 runtime/nutils/tcp.h | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 3e9f6d1..0031c6c 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -16,7 +16,9 @@ typedef struct {
 typedef struct {
     coroutine_t *co;
     coroutine_t *read_co;
+    coroutine_t *write_co;
     int64_t read_len;
+    int write_status;
     void *data;
     void *server;
     bool timeout; // 是否触发了 timeout
@@ -202,11 +204,11 @@ static inline void on_tcp_write_end_cb(uv_write_t *write_req, int status) {
     if (status < 0) {
         // 对端可能已经关闭了连接,导致写入失败等情况
         char *msg = tlsprintf("uv_write failed: %s", uv_strerror(status));
-        DEBUGF("[on_tcp_write_end_cb] failed: %s, co=%p", msg, conn->co);
+        DEBUGF("[on_tcp_write_end_cb] failed: %s, co=%p", msg, conn->write_co);
     }
 
-    co_ready(conn->co);
-    DEBUGF("[on_tcp_write_end_cb] co=%p ready, status=%d", conn->co, conn->co->status);
+    conn->write_status = status;
+    co_ready(conn->write_co);
 }
 
 static inline void tcp_alloc_buffer_cb(uv_handle_t *handle, size_t suggested_size, uv_buf_t *buf) {
@@ -292,9 +294,9 @@ static void uv_async_tcp_write(inner_conn_t *conn) {
 
     int result = uv_write(&conn->write_req, (uv_stream_t *) &conn->handle, &write_buf, 1, on_tcp_write_end_cb);
     if (result < 0) {
-        rti_co_throw(conn->co, tlsprintf("tcp write failed: %s", uv_strerror(result)), false);
-        DEBUGF("[rt_uv_tcp_write] co=%p, tcp write failed: %s", conn->co, uv_strerror(result));
-        co_ready(conn->co);
+        DEBUGF("[rt_uv_tcp_write] co=%p, tcp write failed: %s", conn->write_co, uv_strerror(result));
+        conn->write_status = result;
+        co_ready(conn->write_co);
     }
 }
 
@@ -306,15 +308,29 @@ int64_t rt_uv_tcp_write(n_tcp_conn_t *n_conn, n_vec_t buf) {
     }
 
     inner_conn_t *conn = n_conn->conn;
-    conn->co = co;
+    conn->write_co = co;
+    conn->write_status = 0;
+    conn->ref_count += 1;
     conn->handle.data = conn;
     conn->write_buf = buf;
 
     global_waiting_send(uv_async_tcp_write, conn, 0, 0);
 
-    DEBUGF("[rt_uv_tcp_write] co=%p, waiting resume", co)
+    DEBUGF("[rt_uv_tcp_write] co=%p, resume completed", co)
+
+    int status = conn->write_status;
+    bool closed = n_conn->closed;
+    conn_release(conn);
+
+    if (closed) {
+        rti_co_throw(co, "conn closed", false);
+        return 0;
+    }
+    if (status < 0) {
+        rti_co_throw(co, tlsprintf("tcp write failed: %s", uv_strerror(status)), false);
+        return 0;
+    }
 
-    // not need yield, return directly
     return buf.length;
 }
 
-- 
2.43.0


From 33beffb035e6792a86bf826c51967e7b71373673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:22 +0000
Subject: [PATCH 95/97] fix: survive a write to a connection that the peer has
 closed

The second write after a peer closed its end raised SIGPIPE, whose default
action ended the whole program.
---
 runtime/nutils/tcp.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 0031c6c..b2d875f 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -1,6 +1,8 @@
 #ifndef NATURE_RUNTIME_NUTILS_TCP_H_
 #define NATURE_RUNTIME_NUTILS_TCP_H_
 
+#include <signal.h>
+
 #include "runtime/processor.h"
 #include "runtime/uv_compat.h"
 
@@ -285,7 +287,17 @@ int64_t rt_uv_tcp_read(n_tcp_conn_t *n_conn, n_vec_t buf) {
     return read_len;
 }
 
+// a write to a connection the peer has closed reports an error, it must not end the process
+static void tcp_ignore_sigpipe() {
+    struct sigaction current;
+    if (sigaction(SIGPIPE, NULL, &current) == 0 && current.sa_handler == SIG_DFL) {
+        signal(SIGPIPE, SIG_IGN);
+    }
+}
+
 static void uv_async_tcp_write(inner_conn_t *conn) {
+    tcp_ignore_sigpipe();
+
     uv_buf_t write_buf = {
             .base = (void *) conn->write_buf.data,
             .len = conn->write_buf.length,
-- 
2.43.0


From da27e12ac67326a647424ab0c071a1631edc4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:22 +0000
Subject: [PATCH 96/97] fix: do not return a closed connection to a listener
 that may be freed

Closing a listener frees its connection pool.  A connection accepted
earlier was put back into that pool when it was closed later, possibly
from another thread.
---
 runtime/nutils/tcp.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index b2d875f..8a5583b 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -126,11 +126,8 @@ static inline void conn_release(inner_conn_t *conn) {
             co_ready(conn->co);
         }
 
-        if (conn->server) {
-            release_conn(conn->server, conn);
-        } else {
-            free(conn);
-        }
+        // the listener that accepted the connection may be gone already
+        free(conn);
 
         DEBUGF("[conn_release] ref count = 0, freed")
     } else {
@@ -562,9 +559,10 @@ void rt_uv_tcp_listen(n_tcp_server_t *server) {
     co->data = server;
     server->inner->listen_co = co;
 
-    global_waiting_send(uv_async_tcp_listen, server, 0, 0);
-
+    // fill the pool before the event loop may take from it
     init_conn(server->inner);
+
+    global_waiting_send(uv_async_tcp_listen, server, 0, 0);
     DEBUGF("[rt_uv_tcp_listen] listen success, will return")
 }
 
-- 
2.43.0


From fddda92f1af1f632e5f1c4eddbe6bd3d9938abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:38 +0000
Subject: [PATCH 97/97] fix: count the users of a connection atomically

A read, a write and the event loop take and release references from
different threads.  A lost update left a close waiting forever.
---
 runtime/nutils/tcp.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 8a5583b..6a6ce61 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -31,7 +31,7 @@ typedef struct {
     uv_write_t write_req;
     uv_connect_t conn_req;
     uv_timer_t timer;
-    int ref_count;
+    _Atomic int ref_count;
     n_vec_t buf;
     n_vec_t write_buf;
 } inner_conn_t;
@@ -120,8 +120,7 @@ static void free_conn(inner_server_t *inner) {
 
 
 static inline void conn_release(inner_conn_t *conn) {
-    conn->ref_count -= 1;
-    if (conn->ref_count == 0) {
+    if (--conn->ref_count == 0) {
         if (conn->co) {
             co_ready(conn->co);
         }
@@ -131,7 +130,7 @@ static inline void conn_release(inner_conn_t *conn) {
 
         DEBUGF("[conn_release] ref count = 0, freed")
     } else {
-        DEBUGF("[conn_release] ref count = %d, skip", conn->ref_count);
+        DEBUGF("[conn_release] still referenced, skip");
     }
 }
 
-- 
2.43.0

