From 90f4c7b9ca4735842f1fe30a3f2f7d4272b070f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 01/35] fix: hashmapPut sets *p_res to NULL when it returns
 -ENOMEM, as documented

---
 src/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..4d43085 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -197,6 +197,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
-- 
2.43.0


From 578ff04e853f4ac70f46a7816d7cf2b87f66e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:39 +0000
Subject: [PATCH 02/35] fix: iterator accepts new dependent tasks after the
 queue was drained

---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..20fbd14 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -284,6 +284,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
+        p_iterator->p_current->last_dep = NULL;
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From 7edd39890fae650a70d5638116a2830d98cc648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:41 +0000
Subject: [PATCH 03/35] fix: read and write bit-fields of any width and
 position without touching other bits

---
 src/value.c | 69 ++++++++++++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/src/value.c b/src/value.c
index 1d15d06..550905a 100644
--- a/src/value.c
+++ b/src/value.c
@@ -122,33 +122,30 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    uint8_t buf[16];
+    uint64_t data = 0;
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    assert(bit_size != 0);
+    _check_(bit_size > 8 * var_size || bit_size > 8 * sizeof(data), -(EINVAL));
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
-    if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // read only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
+    base_addr += byte_offset;
+    if (!IS_LITTLE_ENDIAN) {
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
+    // read only the bits of the field: it may be as wide as its type and may cross the borders of its type (packed)
+    for (metac_offset_t i = 0; i < bit_size; ++i) {
+        metac_offset_t bit = bit_offset + i;
+        uint8_t byte = ((uint8_t*)base_addr)[IS_LITTLE_ENDIAN ? (bit >> 3) : (var_size - 1 - (bit >> 3))];
+        data |= ((uint64_t)((byte >> (bit & 0x7)) & 1)) << i;
+    }
+    if (correct_sign && ((data >> (bit_size - 1)) & 1) && bit_size < 8 * sizeof(data)) {
+        data |= (~(uint64_t)0) << bit_size;
+    }
 
 #define _read_(_type_) \
     do{ \
-        _type_ data = *((_type_*)base_addr); \
-        data = (data >> bit_offset) & ((1 << bit_size) - 1); \
-        \
-        if ((correct_sign) && (data & (1 << (bit_size-1)))) { \
-            data = ((-1) << ((bit_size))) ^ data; \
-        } \
-        *((_type_*)p_var) = data; \
+        *((_type_*)p_var) = (_type_)data; \
     } while(0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -176,30 +173,15 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    void * base_addr_orig = NULL;
-    uint8_t buf[16];
+    uint64_t data = 0;
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
-
-     /* TODO: Caution: this has been tested only with little-endian machines*/
-    if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // write only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        base_addr_orig = base_addr;
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
-        bit_offset = 8 * var_size - (bit_offset + bit_size);
-    }
+    assert(bit_size != 0);
+    _check_(bit_size > 8 * var_size || bit_size > 8 * sizeof(data), -(EINVAL));
 
 #define _write_(_type_) \
     do { \
-        _type_ data = ((*(_type_*)p_var) & ((1 << bit_size) - 1)) << bit_offset; \
-        *((_type_*)base_addr) = *((_type_*)base_addr) & (~(((1 << bit_size) - 1) << bit_offset )) | data;\
+        data = *(_type_*)p_var; \
     } while (0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -217,9 +199,16 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     }
 #undef _write_
 
-    if (IS_LITTLE_ENDIAN) {
-        // write back only needed data
-        memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);
+     /* TODO: Caution: this has been tested only with little-endian machines*/
+    base_addr += byte_offset;
+    if (!IS_LITTLE_ENDIAN) {
+        bit_offset = 8 * var_size - (bit_offset + bit_size);
+    }
+    // write back only the bits of the field
+    for (metac_offset_t i = 0; i < bit_size; ++i) {
+        metac_offset_t bit = bit_offset + i;
+        uint8_t * p_byte = &((uint8_t*)base_addr)[IS_LITTLE_ENDIAN ? (bit >> 3) : (var_size - 1 - (bit >> 3))];
+        *p_byte = (*p_byte & ~(1 << (bit & 0x7))) | (((data >> i) & 1) << (bit & 0x7));
     }
 
     return 0;
-- 
2.43.0


From d1bcb511c923a41ce2a6458066286966e7b9c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 04/35] fix: enumerations of unsigned types and enum bit-fields
 are read and written as the compiler does

---
 src/value.c | 64 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/value.c b/src/value.c
index 550905a..c3065fb 100644
--- a/src/value.c
+++ b/src/value.c
@@ -437,6 +437,13 @@ metac_value_t * metac_new_value_by_member_id(metac_value_t *p_val, metac_num_t m
         p_val->addr + bitfields_raw_info.byte_offset);
 }
 
+static metac_flag_t _value_is_bitfield(metac_value_t *p_val) {
+    struct metac_member_raw_location_info raw_info;
+    return metac_entry_kind(p_val->p_entry) == METAC_KND_member &&
+        metac_entry_member_raw_location_info(p_val->p_entry, &raw_info) == 0 &&
+        (raw_info.p_bit_offset != NULL || raw_info.p_bit_size != NULL || raw_info.p_data_bit_offset != NULL);
+}
+
 static metac_entry_t * _value_with_enumeration_info(metac_value_t *p_val) {
     _check_(p_val == NULL, NULL);
     
@@ -473,26 +480,39 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
-        return 0;
+    // compilers use an unsigned type for enums without negative enumerators
+    metac_flag_t is_unsigned = 1;
+    for (metac_num_t i = 0; i < metac_entry_enumeration_info_size(p_final_entry); ++i) {
+        if (metac_entry_enumeration_info(p_final_entry, i)->const_value < 0) {
+            is_unsigned = 0;
+            break;
+        }
     }
-    if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
-        return 0;
+
+    uint64_t data = 0;
+    void * p_data = p_val->addr;
+    if (_value_is_bitfield(p_val) != 0) {
+        struct metac_member_raw_location_info bitfields_raw_info;
+        if (metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0 ||
+            _entry_bitfield_read(p_val->p_entry, p_val->addr - bitfields_raw_info.byte_offset, &data, enum_byte_size, !is_unsigned) != 0) {
+            return -(EFAULT);
+        }
+        p_data = &data;
     }
+
+#define _read_(_type_) \
+    do { \
+        if (enum_byte_size == sizeof(_type_)) { \
+            *p_var = is_unsigned ? (metac_const_value_t)*(unsigned _type_*)p_data : (metac_const_value_t)*(signed _type_*)p_data; \
+            return 0; \
+        } \
+    } while(0)
+    _read_(char);
+    _read_(short);
+    _read_(int);
+    _read_(long);
+    _read_(long long);
+#undef _read_
     return -(ENOTSUP);
 }
 
@@ -511,6 +531,14 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
+    if (_value_is_bitfield(p_val) != 0) {
+        struct metac_member_raw_location_info bitfields_raw_info;
+        if (metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0) {
+            return -(EFAULT);
+        }
+        return _entry_bitfield_write(p_val->p_entry, p_val->addr - bitfields_raw_info.byte_offset, &var, sizeof(var));
+    }
+
     if (enum_byte_size == sizeof(char)) {
         *(char*)p_val->addr = (char)var;
         return 0;
-- 
2.43.0


From 0763a32700a0e3ccf7c25929aa4aec7ad70ff629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:30 +0000
Subject: [PATCH 05/35] fix: C declarations of pointers to arrays, functions
 returning function pointers and arrays of qualified pointers

---
 src/entry_cdecl.c | 87 ++++++++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..81c2876 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -183,6 +183,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
+                        // qualifier of array belongs to its elements: when they already have it, there is nothing to add
+                        metac_entry_t * p_element = p->qual_type_info.type;
+                        while (p_element != NULL && p_element->kind == METAC_KND_array_type) {
+                            p_element = p_element->array_type_info.type;
+                        }
+                        if (type_pattern != NULL && p_element != p->qual_type_info.type &&
+                            p_element != NULL && p_element->kind == p->kind) {
+                            metac_recursive_iterator_done(p_iter, type_pattern);
+                            continue;
+                        }
                         char * res = NULL;
                         if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
                             /* this is more universal way... maybe we will switch to that*/
@@ -225,8 +235,19 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 continue;
                             }
                         }
+                        // pointer to array needs brackets: otherwise it becomes array of pointers
+                        metac_entry_t * p_target = p->pointer_type_info.type;
+                        while (p_target != NULL && (
+                            p_target->kind == METAC_KND_const_type ||
+                            p_target->kind == METAC_KND_volatile_type ||
+                            p_target->kind == METAC_KND_restrict_type ||
+                            p_target->kind == METAC_KND_mutable_type ||
+                            p_target->kind == METAC_KND_shared_type ||
+                            p_target->kind == METAC_KND_packed_type)) {
+                            p_target = p_target->qual_type_info.type;
+                        }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-                            "* %s");
+                            (p_target != NULL && p_target->kind == METAC_KND_array_type)?"(* %s)":"* %s");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
@@ -437,29 +458,26 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subprogram_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // form declarator name(params)
+                        char * declarator = dsprintf("%s(%s)",
+                            p->name,
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subprogram_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (declarator == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // put everything into pattern
-                        char * res = dsprintf(subprogram_pattern,
-                            p->name,
-                            (params!=NULL)?params:"");
-                        if (subprogram_pattern != NULL) {
-                            free(subprogram_pattern);
-                        }
-                        if (params != NULL) {
-                            free(params);
+                        // put it into the place where the result type expects it
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            declarator);
+                        free(declarator);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
@@ -547,27 +565,26 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subroutine_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // form declarator (%s)(params)
+                        char * declarator = dsprintf("(%s)(%s)",
+                            "%s",
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subroutine_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (declarator == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // now we can form final result
-                        char * res = dsprintf(subroutine_pattern,
-                            "(%s)",
-                            (params!=NULL)?params:"");
-                        free(subroutine_pattern);
-                        if (params != NULL) {
-                            free(params);
+                        // put it into the place where the result type expects it
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            declarator);
+                        free(declarator);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 4d59dd1b78f930d05373ef7314e59e9076dbed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:12 +0000
Subject: [PATCH 06/35] fix: metac_value_num refuses numbers which don't fit
 instead of truncating them

---
 src/value_base_type.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 7ece656..406667d 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -230,7 +230,11 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
         if ( metac_value_is_##_pseudoname_(p_val) != 0) { \
             _type_ v; \
             if (metac_value_##_pseudoname_(p_val, &v) == 0) { \
-                *p_var = (metac_num_t)v; \
+                metac_num_t num = (metac_num_t)v; \
+                if ((_type_)num != v || (num < 0) != (v < 0)) { /* doesn't fit */ \
+                    return -(ERANGE); \
+                } \
+                *p_var = num; \
                 return 0;\
             } \
         } \
@@ -251,6 +255,9 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
     if (metac_value_is_enumeration(p_val) != 0) {
         metac_const_value_t v;
         if (metac_value_enumeration(p_val, &v) == 0) {
+            if ((metac_num_t)v != v) { /* doesn't fit */
+                return -(ERANGE);
+            }
             *p_var = (metac_num_t)v;
             return 0;
         }
-- 
2.43.0


From 6815bf80dd5cca15f75d877fcba920f5a66fe4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:37 +0000
Subject: [PATCH 07/35] fix: C declarations of const volatile pointers

---
 src/entry_cdecl.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 81c2876..9edb017 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -9,6 +9,20 @@ dsprintf_render_with_buf(64)
 
 #include <assert.h>
 
+static metac_flag_t _is_qual_type(metac_entry_t * p_entry) {
+    switch (p_entry->kind) {
+        case METAC_KND_const_type:
+        case METAC_KND_volatile_type:
+        case METAC_KND_restrict_type:
+        case METAC_KND_mutable_type:
+        case METAC_KND_shared_type:
+        case METAC_KND_packed_type:
+            return 1;
+        default:
+            return 0;
+    }
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -184,17 +198,25 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         // qualifier of array belongs to its elements: when they already have it, there is nothing to add
-                        metac_entry_t * p_element = p->qual_type_info.type;
-                        while (p_element != NULL && p_element->kind == METAC_KND_array_type) {
-                            p_element = p_element->array_type_info.type;
+                        metac_flag_t in_array = 0, present = 0;
+                        metac_entry_t * p_target = p->qual_type_info.type;
+                        while (p_target != NULL && (_is_qual_type(p_target) || p_target->kind == METAC_KND_array_type)) {
+                            if (p_target->kind == METAC_KND_array_type) {
+                                in_array = 1;
+                                p_target = p_target->array_type_info.type;
+                                continue;
+                            }
+                            if (in_array != 0 && p_target->kind == p->kind) {
+                                present = 1;
+                            }
+                            p_target = p_target->qual_type_info.type;
                         }
-                        if (type_pattern != NULL && p_element != p->qual_type_info.type &&
-                            p_element != NULL && p_element->kind == p->kind) {
+                        if (type_pattern != NULL && present != 0) {
                             metac_recursive_iterator_done(p_iter, type_pattern);
                             continue;
                         }
                         char * res = NULL;
-                        if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
+                        if (p_target != NULL && in_array == 0 && p_target->kind == METAC_KND_pointer_type) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
                             res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -237,13 +259,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         }
                         // pointer to array needs brackets: otherwise it becomes array of pointers
                         metac_entry_t * p_target = p->pointer_type_info.type;
-                        while (p_target != NULL && (
-                            p_target->kind == METAC_KND_const_type ||
-                            p_target->kind == METAC_KND_volatile_type ||
-                            p_target->kind == METAC_KND_restrict_type ||
-                            p_target->kind == METAC_KND_mutable_type ||
-                            p_target->kind == METAC_KND_shared_type ||
-                            p_target->kind == METAC_KND_packed_type)) {
+                        while (p_target != NULL && _is_qual_type(p_target)) {
                             p_target = p_target->qual_type_info.type;
                         }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-- 
2.43.0


From 6d651ae9a0f910e0a4800f67fc5790020705b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:41 +0000
Subject: [PATCH 08/35] fix: deduplicate types in a reproducible order

---
 pkg/metadb/metadb_builder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index fc292d7..bf466eb 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -3,6 +3,7 @@ package metadb
 import (
 	"fmt"
 	"log"
+	"sort"
 	"path/filepath"
 
 	"github.com/aodinokov/metac/pkg/dwarfy"
@@ -826,8 +827,15 @@ func (builder *MetaDbBuilder) build() error {
 func (builder *MetaDbBuilder) deduplicateTypes() error {
 	headerSignatures := map[string]*IndexEntry{}
 	signatures := map[string]map[string]*IndexEntry{}
-	// go via all indexes, find only types
-	for _, indx := range builder.index {
+	// go via all indexes, find only types. map iteration order is random, but the result must be reproducible and
+	// parents must be handled before their children
+	offsets := make([]dwarfy.Offset, 0, len(builder.index))
+	for offset := range builder.index {
+		offsets = append(offsets, offset)
+	}
+	sort.Slice(offsets, func(i, j int) bool { return offsets[i] < offsets[j] })
+	for _, offset := range offsets {
+		indx := builder.index[offset]
 		if indx.p == nil {
 			continue
 		}
-- 
2.43.0


From 66c7dd90631b4cf1ce044a5c3fc2c6a4ca60e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:41 +0000
Subject: [PATCH 09/35] fix: deep copy follows several pointers to the same
 inner part of a block

---
 src/value_deep.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..36fb986 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1075,6 +1075,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     if (p->children_count == 1) {
                         size_t nmemb;
                         void * src;
+                        struct metac_memory_entry * p_src_entry;
                         switch (p_mode->memory_block_mode) {
                             case METAC_MMODE_tree:
                                 nmemb = 1;
@@ -1097,14 +1098,20 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 src = metac_value_addr(p->pp_children[0]->p_val);
                                 assert(src != NULL); /* since children count >0 this must be true */
                                 assert(context.src_to_dst != NULL);
-                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
-                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
+                                /* several pointers may have the same address, the map keeps only 1 entry with offset for them */
+                                p_src_entry = (struct metac_memory_entry *)hashmapGet(context.p_map->p_addr_ptr_val_to_memory_entry, src);
+                                if (p_src_entry == NULL) {
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
+                                if (p_src_entry->offset_from_allocate_base != 0) {
+                                    void * allocate_src = src - p_src_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
+                                    p_dst_children_addr_override = allocate_dst + p_src_entry->offset_from_allocate_base;
                                 } else {
                                     p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                     if (p_dst_children_addr_override == NULL) {
-- 
2.43.0


From 6b03984ed4a66cfeec3eeb9383c8187dfd1c7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:33 +0000
Subject: [PATCH 10/35] fix: deep copy writes NULL pointers of the source to
 the destination

---
 src/value_deep.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 36fb986..90ca547 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1152,13 +1152,13 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */
-                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
+                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
+                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
-                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
+                    } else { /* NULL pointer or METAC_UPTR_ignore: set as NULL, dst can contain anything */
+                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-- 
2.43.0


From ec0cf5167fdcaa6daff5074e0f42b35b1327ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:29 +0000
Subject: [PATCH 11/35] fix: pointers to the top-level value itself are neither
 freed nor copied as separate blocks

---
 include/metac/backend/value.h |  1 +
 src/value_deep.c              | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/metac/backend/value.h b/include/metac/backend/value.h
index 8865ce3..91f9dad 100644
--- a/include/metac/backend/value.h
+++ b/include/metac/backend/value.h
@@ -29,6 +29,7 @@ struct metac_memory_entry {
     /* the next fields are used only with pointers parents */
     int loop_level; /*if > 0 - references the number of parent to pass to find children */
     metac_size_t offset_from_allocate_base;   /* 0 if pointer looks at the beginning of allocated area. otherwise if will point to the region whihch belongs to someone else */
+    metac_flag_t part_of_top; /* 1 if the memory belongs to the top-level value (which isn't allocated/freed by deep functions), offset_from_allocate_base is from its beginning */
 };
 
 struct metac_memory_entry * metac_new_memory_entry(metac_value_t * p_val, metac_size_t byte_size, metac_num_t children_count);
diff --git a/src/value_deep.c b/src/value_deep.c
index 90ca547..ac939e3 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -278,6 +278,10 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
     /* sort keys for sweep line algorithm */
     qsort(context.p_keys, context.len, sizeof(*context.p_keys), _sort_addr_);
 
+    /* memory of the top-level value itself - we don't own it */
+    void *p_top = metac_value_addr(p_map->p_top_entry->p_val);
+    metac_size_t top_size = p_map->p_top_entry->byte_size;
+
     /* sweep line*/
     void *p_main = NULL;
     struct metac_memory_entry * p_main_entry = NULL;
@@ -291,6 +295,12 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
             continue;
         }
 
+        if (p_current >= p_top && p_current < p_top + top_size) {
+            p_current_entry->part_of_top = 1;
+            p_current_entry->offset_from_allocate_base = p_current - p_top;
+            continue;
+        }
+
         if (p_main == NULL) {
             p_main = p_current;
             p_main_entry = p_current_entry;
@@ -894,7 +904,7 @@ static bool _value_free(void* key, void* value, void* context) {
     struct _metac_value_free_context * p_context = (struct _metac_value_free_context *)context;
     void* ptr = key;
     struct metac_memory_entry *p_ptr_entry = (struct metac_memory_entry *)value;
-    if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */
+    if (p_ptr_entry->offset_from_allocate_base == 0 && p_ptr_entry->part_of_top == 0) { /* delete non weak only */
         if (p_context->free_fn != NULL) {
             p_context->free_fn(ptr);
         }
@@ -947,7 +957,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
     }
 
     struct metac_memory_entry *p_ptr_entry = (struct metac_memory_entry *)value;
-    if (p_ptr_entry->offset_from_allocate_base == 0) { /* delete non weak only */
+    if (p_ptr_entry->offset_from_allocate_base == 0 && p_ptr_entry->part_of_top == 0) { /* allocate non weak only */
         void * dst = p_context->calloc_fn(1, p_ptr_entry->byte_size);
         if (dst == NULL) {
             p_context->preallocation_failed = 1;
@@ -1104,7 +1114,10 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
-                                if (p_src_entry->offset_from_allocate_base != 0) {
+                                if (p_src_entry->part_of_top != 0) {
+                                    p_dst_children_addr_override =
+                                        metac_value_addr((metac_value_t*)context.p_map->p_top_entry->private_data) + p_src_entry->offset_from_allocate_base;
+                                } else if (p_src_entry->offset_from_allocate_base != 0) {
                                     void * allocate_src = src - p_src_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
-- 
2.43.0


From 34d0c8f93fcc027d2c76eb89a6a0492056c35601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:30 +0000
Subject: [PATCH 12/35] fix: overlapping and empty arrays inside of a block are
 treated as parts of it

---
 src/value_deep.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index ac939e3..edc888d 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -290,17 +290,20 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
         struct metac_memory_entry * p_current_entry = hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, p_current);
         assert(p_current_entry != NULL);
 
-        if (p_current_entry->byte_size <= 0) {
-            // artificial elements, like param/function loads
-            continue;
-        }
-
         if (p_current >= p_top && p_current < p_top + top_size) {
             p_current_entry->part_of_top = 1;
             p_current_entry->offset_from_allocate_base = p_current - p_top;
             continue;
         }
 
+        if (p_current_entry->byte_size <= 0) {
+            // arrays without elements and artificial elements, like param/function loads. they can be inside of another block
+            if (p_main != NULL && p_current < p_main + p_main_entry->byte_size) {
+                p_current_entry->offset_from_allocate_base = p_current - p_main;
+            }
+            continue;
+        }
+
         if (p_main == NULL) {
             p_main = p_current;
             p_main_entry = p_current_entry;
@@ -312,11 +315,8 @@ static int _identify_allocatable_entries(struct metac_memory_map * p_map) {
             continue;
         }
         if (p_main + p_main_entry->byte_size < p_current + p_current_entry->byte_size) {
-            metac_size_t delta = p_current + p_current_entry->byte_size - (p_main + p_main_entry->byte_size);
-            printf("WARNING: partial overlap %p:%"METAC_SIZE_PRIx" with %p:%"METAC_SIZE_PRIx
-                ". should we extend the first size by %"METAC_SIZE_PRIx"\n",
-                p_main, p_main_entry->byte_size, p_current, p_current_entry->byte_size, 
-                delta);
+            /* partial overlap: the block is at least as long as everything that starts in it */
+            p_main_entry->byte_size = p_current + p_current_entry->byte_size - p_main;
         }
         p_current_entry->offset_from_allocate_base = p_current - p_main;
     }
-- 
2.43.0


From 7b0cc015907e4e6562c30a17189318b4388c92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 13/35] fix: pointers to qualified void and to typedefs of
 declared-only types are recognized as such

---
 src/entry.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..e43ada6 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -298,14 +298,17 @@ metac_flag_t metac_entry_is_pointer(metac_entry_t *p_entry) {
 metac_flag_t metac_entry_is_void_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;
+    return p_final_entry != NULL && (
+        p_final_entry->pointer_type_info.type == NULL ||
+        metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL) == NULL /* const void *, typedef of void and etc */);
 }
 
 metac_flag_t metac_entry_is_declaration_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
     if (p_final_entry != NULL && p_final_entry->pointer_type_info.type != NULL) {
-        return p_final_entry->pointer_type_info.type->declaration != 0;
+        metac_entry_t * p_final_type_entry = metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL);
+        return p_final_type_entry != NULL && p_final_type_entry->declaration != 0;
     }
     return 0;
 }
-- 
2.43.0


From 13f98961d6804772cd61fe3454f92a704da57614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:14 +0000
Subject: [PATCH 14/35] fix: capture of printf arguments reads formats as
 printf does

%s copied the text into an 8 byte buffer, conversions directly following
each other were skipped, %% shifted the parameter ids, unparsable
conversions and wide characters were silently misread, width and precision
after 0 and space flags were read as octal.
---
 src/printf_format.c | 46 ++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..ed330bc 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -37,7 +37,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         } else if (format[*pos] == '0') {
             p_specifier->flags.oct = 1;
         } else if (format[*pos] == ' ') {
-            p_specifier->flags.oct = 1;
+            p_specifier->flags.space = 1;
         } else {
             break;
         }
@@ -48,11 +48,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
     p_specifier->format_len = 0;
     while (*pos < strlen(format) && isdigit(format[*pos])) {
         metac_num_t d = format[*pos] - '0';
-        if (p_specifier->flags.oct != 0) {
-            p_specifier->format_len = p_specifier->format_len * 8 + d;
-        } else {
-            p_specifier->format_len = p_specifier->format_len * 10 + d;
-        }
+        p_specifier->format_len = p_specifier->format_len * 10 + d;
         (*pos)++;
     }
 
@@ -63,11 +59,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         (*pos)++;
         while (*pos < strlen(format) && isdigit(format[*pos])) {
             metac_num_t d = format[*pos] - '0';
-            if (p_specifier->flags.oct != 0) {
-                p_specifier->precision = p_specifier->precision * 8 + d;
-            } else {
-                p_specifier->precision = p_specifier->precision * 10 + d;
-            }
+            p_specifier->precision = p_specifier->precision * 10 + d;
             (*pos)++;
         }
     }
@@ -115,7 +107,11 @@ size_t metac_count_format_specifiers(const char *format) {
         if (format[pos] == '%') {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
-            num_specifiers++;
+                num_specifiers++;
+                continue; // pos is already after the specifier
+            }
+            if (format[pos] == 0) {
+                break;
             }
         }
         pos++;
@@ -171,18 +167,23 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
         return -(EINVAL);
     }
 
-    metac_num_t parameters_count = metac_count_format_specifiers(format);
-
     metac_num_t param_id = 0;
     size_t pos = 0;
     metac_printf_specifier_t dummy_specifier;
 
     while (pos < strlen(format)) {
         if (format[pos] == '%') {
+            if (format[pos + 1] == '%') { // just % character, it doesn't take any argument
+                pos += 2;
+                continue;
+            }
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
                 case 's': {
+                        if (dummy_specifier.arg_len == psal_l) { // wchar_t isn't supported
+                            return -(EFAULT);
+                        }
                         WITH_METAC_DECLLOC(decl, char * p = NULL);
                         p = (char*)va_arg(p_cntr->parameters, char*);
 
@@ -200,13 +201,15 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             metac_value_delete(p_param_value);
                             memcpy(p_param_value_ptr, &p, sizeof(p));
                         }else{
-                            size_t len = strlen(p);
+                            // if precision is set, the string may have no ending 0
+                            size_t len = (dummy_specifier.precision < 0)?strlen(p):strnlen(p, dummy_specifier.precision);
                             metac_entry_t * p_param_with_len_entry = metac_new_element_count_entry(p_param_entry, len+1);
                             if (p_param_with_len_entry == NULL) {
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
@@ -216,7 +219,7 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             }
                             void * p_param_value_ptr = metac_value_addr(p_param_value);
                             metac_value_delete(p_param_value);
-                            memcpy(p_param_value_ptr, p, len+1);
+                            memcpy(p_param_value_ptr, p, len); // the buffer is filled with 0s
                         }
                     }
                     break;
@@ -275,7 +278,10 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                 case 'c':
                 case 'i':
                 case 'd': {
-                        if (dummy_specifier.t == 'c' ||
+                        if (dummy_specifier.t == 'c' &&
+                            dummy_specifier.arg_len == psal_l) { // wint_t isn't supported
+                            return -(EFAULT);
+                        } else if (dummy_specifier.t == 'c' ||
                             dummy_specifier.arg_len == psal_hh) {
                             _process(char, int);
                         } else if (dummy_specifier.t != 'c') {
@@ -333,8 +339,10 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+                ++param_id;
+                continue; // pos is already after the specifier
             }
-            ++param_id;
+            return -(EFAULT); // we don't know how many arguments it takes
         }
         ++pos;
     }
-- 
2.43.0


From 233ac05100cd923307abaa4d129570da4a6faa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:00 +0000
Subject: [PATCH 15/35] fix: tag lookup with external maps and with levels for
 final types only

A level that only refers to an external map hit assert(0) when that map had
no tag for the entry; a level with METAC_TEC_final as its only category was
never searched.
---
 src/entry_tag.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..643af0a 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -156,7 +156,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
         return NULL;
     }
 
-    metac_entry_t* p_final_entry = NULL;//metac_entry_final_entry(p_entry, NULL);
+    metac_entry_t* p_final_entry = metac_entry_final_entry(p_entry, NULL);
 
     metac_tag_map_entry_category_mask_t mask = 0;
     switch (metac_entry_kind(p_entry)) {
@@ -172,33 +172,33 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
     }
 
     for (metac_num_t i = 0; i< p_tag_map->categories_count; ++i) {
-        if ((p_tag_map->p_categories[i].mask & mask) == 0) {
+        metac_flag_t check_entry = (p_tag_map->p_categories[i].mask & mask) != 0;
+        metac_flag_t check_final_entry = p_final_entry != NULL &&
+            (p_tag_map->p_categories[i].mask & METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)) != 0;
+        if (check_entry == 0 && check_final_entry == 0) {
             continue;
         }
         if (p_tag_map->p_categories[i].p_ext_map != NULL) {
-            metac_entry_tag_t * p_ext_res = metac_tag_map_tag(p_tag_map->p_categories[i].p_ext_map, p_entry);
+            metac_entry_tag_t * p_ext_res = metac_tag_map_tag(p_tag_map->p_categories[i].p_ext_map,
+                (check_entry != 0)?p_entry:p_final_entry);
             if (p_ext_res != NULL) {
                 return p_ext_res;
             }
         }
-        if (p_tag_map->p_categories[i].p_map == NULL) {
-            assert(0);
+        if (p_tag_map->p_categories[i].p_map == NULL) { /* external map only */
             continue;
         }
 
-        metac_entry_tag_t *p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_entry);
-        if (p_tag != NULL) {
-            return p_tag;
-        }
-        if (p_tag_map->p_categories[i].mask & METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)){
-            if (p_final_entry == NULL) {
-                p_final_entry = metac_entry_final_entry(p_entry, NULL);
+        if (check_entry != 0) {
+            metac_entry_tag_t *p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_entry);
+            if (p_tag != NULL) {
+                return p_tag;
             }
-            if (p_final_entry != NULL) {
-                p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_final_entry);
-                if (p_tag != NULL) {
-                    return p_tag;
-                }
+        }
+        if (check_final_entry != 0) {
+            metac_entry_tag_t *p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_final_entry);
+            if (p_tag != NULL) {
+                return p_tag;
             }
         }
     }
-- 
2.43.0


From 459dec1439a5dcd1c68a4aa92285110a618dc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:21 +0000
Subject: [PATCH 16/35] fix: lengths and members which can't be found out are
 errors

METAC_COUNT_BY with a negative or missing counter, METAC_CAST_PTR with a
negative counter and METAC_UNION_MEMBER_SELECT_BY with a missing selector or
a number out of range were treated as if there were no description at all
(e.g. the pointer was followed as an array of one element).
---
 src/entry_tag.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 643af0a..a49cfec 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -409,9 +409,13 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     return -(EFAULT);
                 }
                 metac_value_delete(p_sibling_val);
+                if (content_len < 0) {
+                    return -(EFAULT);
+                }
                 p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
             }
+            return -(ENOENT);
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
@@ -426,9 +430,13 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                     return -(EFAULT);
                 }
                 metac_value_delete(p_sibling_val);
+                if (content_len < 0) {
+                    return -(EFAULT);
+                }
                 p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
             }
+            return -(ENOENT);
         } else {
             return -(EFAULT);
         }
@@ -635,8 +643,9 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                         }
                     }
                     p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
-                    return 0;
+                    return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
                 }
+                return -(ENOENT);
             }
             break;
             case unsConstant: {
@@ -646,7 +655,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     return -(EINVAL);
                 }
                 p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
             }
             break;
         }
@@ -766,6 +775,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 return -(EINVAL);
             } 
             metac_value_delete(p_sibling_val);
+            if (content_count < 0) {
+                return -(EINVAL);
+            }
         }
 
         for (metac_num_t i  = 0; i < p_cnxt->cases_count; ++i) {
@@ -779,7 +791,7 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 p_ev->p_return_value = metac_new_element_count_value(p_cast_ptr_val, content_count);
                 metac_value_delete(p_cast_ptr_val);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
             }
         }
     }
-- 
2.43.0


From 9c4a90ae8c0e0314eeeaebd0ad225274c1dc7fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:46 +0000
Subject: [PATCH 17/35] fix: METAC_ZERO_ENDED_STRING works for flexible char
 arrays as documented

---
 src/entry_tag.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index a49cfec..66fe2d9 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -452,17 +452,25 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
         
         metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
-        if (p_val == NULL || metac_value_is_pointer(p_val) == 0) {
+        if (p_val == NULL) {
             return -(EFAULT);
         }
-        metac_entry_t *p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+        metac_flag_t is_pointer = metac_value_is_pointer(p_val);
+        if (is_pointer == 0 && metac_value_has_elements(p_val) == 0) {
+            return -(EFAULT);
+        }
+        metac_entry_t *p_target_entry = metac_entry_final_entry((is_pointer != 0)?
+            metac_entry_pointer_entry(metac_value_entry(p_val)):
+            metac_entry_element_entry(metac_value_entry(p_val)), NULL);
         if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
             metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
             return -(EFAULT);
         }
 
         char * ptr = NULL;
-        if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
+        if (is_pointer == 0) { /* flexible array */
+            ptr = (char *)metac_value_addr(p_val);
+        } else if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
             return -(EFAULT);
         }
         if (ptr == NULL) {
-- 
2.43.0


From 17805989b846147748cead68f99cc4ec87678af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:01 +0000
Subject: [PATCH 18/35] fix: extract va_list parameters even when nobody
 handles them

The event value was leaked and the parameters behind were read from wrong
places when the tag map had no handler for the parameter.
---
 src/value_with_args.c | 52 +++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..5ba58f6 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -268,41 +268,35 @@ static void _handle_subprogram(
                 return;
             }
 
-            metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
-            
-            if (p_tag != NULL && p_tag->handler) {
-
-                // if parameter is va_list - we need to extract it
-                int local = 0;
-                struct va_list_container local_cntr = {};
+            // if parameter is va_list - we need to extract it (even if nobody handles it, otherwise the next parameters will be read incorrectly)
+            int local = 0;
+            struct va_list_container local_cntr = {};
 #if VA_ARG_IN_VA_ARG != 0
-                if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
-                    local = 1;
+            if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
+                local = 1;
 #if __linux__
-                    // linux (gcc) can't extract va_arg from va_arg
-                    void * p = va_arg(p_va_list_container->parameters, void*);
-                    memcpy(&local_cntr, p, sizeof(local_cntr));
+                // linux (gcc) can't extract va_arg from va_arg
+                void * p = va_arg(p_va_list_container->parameters, void*);
+                memcpy(&local_cntr, p, sizeof(local_cntr));
 #else
-                    _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
+                _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
 #endif
-                    ev.p_va_list_container = &local_cntr;
-                }
+                ev.p_va_list_container = &local_cntr;
+            }
 #endif
 
-                if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {
-                    if (local != 0){
-                        va_end(local_cntr.parameters);
-                    }
-                    metac_value_delete(ev.p_return_value);
-
-
-                    metac_recursive_iterator_fail(p_iter);
-                    return;
-                }
-                if (local != 0){
-                    va_end(local_cntr.parameters);
-                }
-                metac_value_delete(ev.p_return_value);
+            int err = 0;
+            metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
+            if (p_tag != NULL && p_tag->handler) {
+                err = metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context);
+            }
+            if (local != 0){
+                va_end(local_cntr.parameters);
+            }
+            metac_value_delete(ev.p_return_value);
+            if (err != 0) {
+                metac_recursive_iterator_fail(p_iter);
+                return;
             }
         } else { /* normal param */
             void * addr = NULL;
-- 
2.43.0


From d889d94e5435cdc8707f1866e153a9efd805675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:34 +0000
Subject: [PATCH 19/35] fix: deep copy and text of captured calls with variable
 arguments

Nested argument lists are copied together with the storage that contains
them, but were then refused as non-empty destinations; va_list parameters
were treated as plain pointers. Calls without variable arguments had no text.
---
 src/value_deep.c   | 27 ++++++++++++++++-----------
 src/value_string.c | 14 ++++++++------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index edc888d..e0d0587 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1080,7 +1080,8 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         switch (state) {
             case METAC_R_ITER_start: {
                 void * p_dst_children_addr_override = NULL;
-                if (metac_value_is_pointer(p->p_val)) {
+                if (metac_value_has_parameter_load(p->p_val) == 0 /* va_list parameter can be seen as pointer */ &&
+                        metac_value_is_pointer(p->p_val)) {
                     assert(p->children_count <= 1);
                     if (p->children_count == 1) {
                         size_t nmemb;
@@ -1202,14 +1203,17 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                 } else if (metac_value_has_parameter_load(p->p_val)) {
                     metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
                     metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
-                    if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
-                        // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
-                    if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;   
+                    // va_list and unspecified parameters were already copied together with the storage that contains them
+                    if (p->p_parent == NULL || metac_value_has_parameter_load(p->p_parent->p_val) == 0) {
+                        if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
+                            // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
+                        if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
                     }
 
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
@@ -1246,7 +1250,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
+                        if (fail != 0 && metac_value_has_parameter_load(p->p_val) == 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
                             /*need to free memory in that case */
                             assert(p->children_count == 1);
                             void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
@@ -1332,7 +1336,8 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     continue;
                 }
 
-                if (metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
+                if (metac_value_has_parameter_load(p1->p_val) == 0 &&
+                        metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
                         if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
                             /*treat pointer as value*/
diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..20b7b09 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -680,7 +680,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char *prev_out = out;
                             out = dsprintf("%s%s%s",
                                 prev_out == NULL?"":prev_out, /*must include , at the end */
-                                prev_out == NULL?"":", ",
+                                (prev_out == NULL || param_out[0] == 0)?"":", ", /* unspecified parameters can be empty */
                                 param_out
                             );
                             free(param_out);
@@ -705,12 +705,14 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     if (final_kind == METAC_KND_func_parameter) {
                         if (metac_entry_is_va_list_parameter(metac_value_entry(p))!=0) { // wrap with VA_LIST()
                             char *prev_out = out;
-                            out = dsprintf("VA_LIST(%s)",prev_out);
+                            out = dsprintf("VA_LIST(%s)", prev_out == NULL?"":prev_out);
                             free(prev_out);
-                            if (out == NULL) {
-                                metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
-                                continue;   
-                            }
+                        } else if (out == NULL) { // no arguments
+                            out = dsprintf("%s", "");
+                        }
+                        if (out == NULL) {
+                            metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
+                            continue;
                         }
                         metac_recursive_iterator_done(p_iter, out);
                         continue;
-- 
2.43.0


From 04889dd8a98c6fb57cec9aac4a9d98424a965880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:15 +0000
Subject: [PATCH 20/35] fix: escape quote and backslash in the text of char
 values

---
 src/value_base_type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 406667d..77110cf 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -358,6 +358,9 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
         if (metac_value_char(p_val, &v) != 0) {
             return NULL;
         }
+        if (v == '\'' || v == '\\') {
+            return dsprintf("'\\%c'", v);
+        }
         if (isprint(v)) {
             return dsprintf("'%c'", v);
         }
-- 
2.43.0


From ef164683223966abe8d78e6870518e12cc52999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:31 +0000
Subject: [PATCH 21/35] fix: 64-bit numbers survive the json form of dwarf data

---
 pkg/dwarfy/dwarf.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index a55acaf..f1b813a 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -1,9 +1,11 @@
 package dwarfy
 
 import (
+	"bytes"
 	"debug/dwarf"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 
 	"gopkg.in/yaml.v3"
@@ -164,6 +166,10 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = uint64(f.Val.(float64))
 		case int:
 			f.Val = uint64(f.Val.(int))
+		case json.Number:
+			if val, err := strconv.ParseUint(f.Val.(json.Number).String(), 10, 64); err == nil {
+				f.Val = val
+			}
 		}
 	case "ClassReference":
 		switch f.Val.(type) {
@@ -171,6 +177,10 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = Offset(f.Val.(float64))
 		case int:
 			f.Val = Offset(f.Val.(int))
+		case json.Number:
+			if val, err := strconv.ParseUint(f.Val.(json.Number).String(), 10, 32); err == nil {
+				f.Val = Offset(val)
+			}
 		case dwarf.Offset:
 			f.Val = Offset(f.Val.(dwarf.Offset))
 		}
@@ -190,6 +200,10 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = int64(f.Val.(float64))
 		case int:
 			f.Val = int64(f.Val.(int))
+		case json.Number:
+			if val, err := f.Val.(json.Number).Int64(); err == nil {
+				f.Val = val
+			}
 		}
 	case "ClassExprLoc":
 		fallthrough
@@ -211,10 +225,20 @@ func (f *Field) fixValBasedOnClass() {
 					r = append(r, int(val))
 				case float64:
 					r = append(r, int(val))
+				case json.Number:
+					if val, err := val.Int64(); err == nil {
+						r = append(r, int(val))
+					}
 				}
 			}
 			f.Val = r
 		}
+	default: // the rest of numbers, e.g. ClassStrOffsetsPtr
+		if number, ok := f.Val.(json.Number); ok {
+			if val, err := number.Int64(); err == nil {
+				f.Val = val
+			}
+		}
 	}
 }
 
@@ -547,10 +571,15 @@ func NewDataFromUnstructured(iu interface{}) (*Data, error) {
 
 func NewDataFromJsonBuffer(buf []byte) (*Data, error) {
 	data := Data{}
-	err := json.Unmarshal(buf, &data)
+	decoder := json.NewDecoder(bytes.NewReader(buf))
+	decoder.UseNumber() // float64 can't keep all 64bit values
+	err := decoder.Decode(&data)
 	if err != nil {
 		return nil, err
 	}
+	if _, err = decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after the top-level json value")
+	}
 	data.fixValBasedOnClass()
 	return &data, nil
 }
-- 
2.43.0


From fe3ed38dfaea8ccc0c736076959ebb571ca83255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:31 +0000
Subject: [PATCH 22/35] fix: failures of the generator are reported with the
 exit status

---
 cmd/run/run.go                       |  4 ++--
 main.go                              | 10 ++++++++--
 pkg/module/gotemplate/funcs/funcs.go | 16 ++++++++--------
 pkg/module/gotemplate/gotemplate.go  |  5 ++++-
 pkg/override/override.go             |  5 ++++-
 5 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/cmd/run/run.go b/cmd/run/run.go
index b047035..5733ec3 100644
--- a/cmd/run/run.go
+++ b/cmd/run/run.go
@@ -44,9 +44,9 @@ func NewCommand() *cobra.Command {
 			if err != nil {
 				return err
 			}
-			fmt.Printf("%s\n", string(output))
+			_, err = fmt.Printf("%s\n", string(output))
 
-			return nil
+			return err
 		},
 	}
 
diff --git a/main.go b/main.go
index 9ff9267..2e137f1 100644
--- a/main.go
+++ b/main.go
@@ -1,7 +1,13 @@
 package main
 
-import "github.com/aodinokov/metac/cmd/run"
+import (
+	"os"
+
+	"github.com/aodinokov/metac/cmd/run"
+)
 
 func main() {
-	run.NewCommand().Execute()
+	if err := run.NewCommand().Execute(); err != nil {
+		os.Exit(1)
+	}
 }
diff --git a/pkg/module/gotemplate/funcs/funcs.go b/pkg/module/gotemplate/funcs/funcs.go
index ce479e9..2662c4a 100644
--- a/pkg/module/gotemplate/funcs/funcs.go
+++ b/pkg/module/gotemplate/funcs/funcs.go
@@ -70,27 +70,27 @@ var genericMap = map[string]interface{}{
 	"dwarfFromJson":         dwarfy.NewDataFromJsonBuffer,
 	"dwarfFromUnstructured": dwarfy.NewDataFromUnstructured,
 
-	"dwarfToYamlFile": func(data *dwarfy.Data, filename string) error {
+	"dwarfToYamlFile": func(data *dwarfy.Data, filename string) (string, error) {
 		buf, err := data.ToYamlBuffer()
 		if err != nil {
-			return fmt.Errorf("could not serialize to buffer: %v", err)
+			return "", fmt.Errorf("could not serialize to buffer: %v", err)
 		}
 		err = ioutil.WriteFile(filename, buf, 0644)
 		if err != nil {
-			return fmt.Errorf("could not write to file %s: %v", filename, err)
+			return "", fmt.Errorf("could not write to file %s: %v", filename, err)
 		}
-		return nil
+		return "", nil
 	},
-	"dwarfToJsonFile": func(data *dwarfy.Data, filename string) error {
+	"dwarfToJsonFile": func(data *dwarfy.Data, filename string) (string, error) {
 		buf, err := data.ToJsonBuffer()
 		if err != nil {
-			return fmt.Errorf("could not serialize to buffer: %v", err)
+			return "", fmt.Errorf("could not serialize to buffer: %v", err)
 		}
 		err = ioutil.WriteFile(filename, buf, 0644)
 		if err != nil {
-			return fmt.Errorf("could not write to file %s: %v", filename, err)
+			return "", fmt.Errorf("could not write to file %s: %v", filename, err)
 		}
-		return nil
+		return "", nil
 	},
 
 	"dwarfToYaml": func(data *dwarfy.Data) (string, error) {
diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index f1268aa..2fa67ab 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -170,7 +170,10 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		if err != nil {
 			return nil, fmt.Errorf("couldn't change workdir %v", err)
 		}
-		os.Chdir(workDir)
+		err = os.Chdir(workDir)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't change workdir %v", err)
+		}
 	}
 
 	// finally exec our module
diff --git a/pkg/override/override.go b/pkg/override/override.go
index c5e70cd..0b2aaa9 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -48,7 +48,10 @@ func MergeAll(in *map[string]interface{}, overrides []string) (*map[string]inter
 			return nil, err
 		}
 		// support only merge so far
-		in, _ = Merge(in, overrideUnstr)
+		in, err = Merge(in, overrideUnstr)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return in, nil
 }
-- 
2.43.0


From 763c90dddc2332fea16de67e2cb273f5db82b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:04 +0000
Subject: [PATCH 23/35] fix: types of different files aren't merged by the name
 of the type they refer to

---
 pkg/metadb/metadb_builder.go | 46 +++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index bf466eb..62e1943 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -35,6 +35,8 @@ type IndexEntry struct {
 	CommonLink
 
 	isDuplicate bool
+
+	class int // types with the same class have the same meaning, 0 - not calculated yet
 }
 
 func (*IndexEntry) GetKind() string {
@@ -45,7 +47,12 @@ func (s *IndexEntry) Signature(comparable bool) (string, error) {
 	if s.p == nil {
 		panic("IndexEntry pointer is nil")
 	}
-	return s.p.Signature(comparable)
+	signature, err := s.p.Signature(comparable)
+	if err == nil && s.class > 0 {
+		// name isn't enough: compile units may have different types with the same name
+		signature += fmt.Sprintf("#%d", s.class)
+	}
+	return signature, err
 }
 
 func (s *IndexEntry) GetId() CommonId {
@@ -824,6 +831,40 @@ func (builder *MetaDbBuilder) build() error {
 	return nil
 }
 
+// classifyTypes gives the same class to types that can't be distinguished. Signature of the type contains only names of
+// the types it's based on. That isn't enough, because they may be different, e.g. pointers to different structures with the
+// same name. So repeat the split using classes of the underlying types until there is nothing to split.
+func (builder *MetaDbBuilder) classifyTypes(offsets []dwarfy.Offset) error {
+	for count := 0; ; {
+		classes := map[string]int{}
+		next := map[*IndexEntry]int{}
+		for _, offset := range offsets {
+			indx := builder.index[offset]
+			if indx.p == nil || !isTypeTag(indx.Tag) {
+				continue
+			}
+			s, err := indx.p.Signature(!indx.isDeclaration())
+			if err != nil {
+				return err
+			}
+			if indx.isDeclaration() {
+				s = "Declaration," + s
+			}
+			if _, ok := classes[s]; !ok {
+				classes[s] = len(classes) + 1
+			}
+			next[indx] = classes[s]
+		}
+		for indx, class := range next {
+			indx.class = class
+		}
+		if len(classes) == count {
+			return nil
+		}
+		count = len(classes)
+	}
+}
+
 func (builder *MetaDbBuilder) deduplicateTypes() error {
 	headerSignatures := map[string]*IndexEntry{}
 	signatures := map[string]map[string]*IndexEntry{}
@@ -834,6 +875,9 @@ func (builder *MetaDbBuilder) deduplicateTypes() error {
 		offsets = append(offsets, offset)
 	}
 	sort.Slice(offsets, func(i, j int) bool { return offsets[i] < offsets[j] })
+	if err := builder.classifyTypes(offsets); err != nil {
+		return err
+	}
 	for _, offset := range offsets {
 		indx := builder.index[offset]
 		if indx.p == nil {
-- 
2.43.0


From 1039b1c3a4610b3f6991e2a9d1847421104e3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:06 +0000
Subject: [PATCH 24/35] fix: response to METAC_DB_LINK is a pointer to the
 database as the request expects

---
 modules/metac-reflect-gen/templates/_db_v0.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/metac-reflect-gen/templates/_db_v0.tpl b/modules/metac-reflect-gen/templates/_db_v0.tpl
index c97c6a1..066f705 100644
--- a/modules/metac-reflect-gen/templates/_db_v0.tpl
+++ b/modules/metac-reflect-gen/templates/_db_v0.tpl
@@ -11,7 +11,8 @@
 {{-       end -}}
 {{-     end }}
 /* db */
-struct metac_db METAC_DB_NAME() = {
+struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {
+    {
     .version = 0,
     .db_v0 = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "base_types" $metaDb.BaseTypes)) -}}
@@ -25,6 +26,7 @@ struct metac_db METAC_DB_NAME() = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "subprograms" $metaDb.Subprograms)) -}}
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "compile_units" $metaDb.CompileUnits)) }}
     },
+    },
 };
 {{-   end -}}
 {{- end -}}
-- 
2.43.0


From a62e1d1ff408764da088f528b0de34bb4c86d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:08 +0000
Subject: [PATCH 25/35] fix: definition of the variable declared before has
 name, type and place

---
 .../templates/_glob_responses.tpl             | 11 +++++++--
 pkg/metadb/metadb_builder.go                  | 23 ++++++++++++++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_glob_responses.tpl b/modules/metac-reflect-gen/templates/_glob_responses.tpl
index 299f45d..d3d766d 100644
--- a/modules/metac-reflect-gen/templates/_glob_responses.tpl
+++ b/modules/metac-reflect-gen/templates/_glob_responses.tpl
@@ -27,6 +27,8 @@
 {{-   $hierarchy := index . "hierarchy" -}}
 {{-   $resNameMacro := index . "resNameMacro" -}}
 {{-   $resName := index . "resName" -}}
+{{- /* there can be a declaration and a definition with the same name - prefer definition */ -}}
+{{-   $found := "" -}}
 {{-   range $i,$h := $hierarchy -}}
 {{-     if or (eq $h.Kind "Variable") (eq $h.Kind "Subprogram") -}}
 {{-       $var := "" -}}
@@ -37,8 +39,10 @@
 {{-         $var = index $metaDb.Subprograms $h.Id -}}
 {{-       end -}}
 {{-       with $var -}}
-{{-         if eq (toJson $resName) (toJson .Name) }}
-struct metac_entry *{{ $resNameMacro }}({{ $var.Name }}) = &{{$h.Id}};
+{{-         if eq (toJson $resName) (toJson .Name) -}}
+{{-           if or (eq $found "") (ne (toJson $h.Declaration) "true") -}}
+{{-             $found = toString $h.Id -}}
+{{-           end -}}
 {{-         end -}}
 {{-       end -}}
 {{-     end -}}
@@ -50,4 +54,7 @@ struct metac_entry *{{ $resNameMacro }}({{ $var.Name }}) = &{{$h.Id}};
 {{-       end -}}
 {{-     end -}}
 {{-   end -}}
+{{-   if ne $found "" }}
+struct metac_entry *{{ $resNameMacro }}({{ $resName }}) = &{{ $found }};
+{{-   end -}}
 {{- end -}}
diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index 62e1943..1679475 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -148,6 +148,27 @@ func NewMetaDb(data *dwarfy.Data) (*MetaDb, error) {
 	return builder.metaDb, nil
 }
 
+// withDeclaration completes definition of the variable that was declared before with the attributes of that declaration.
+// Compiler doesn't repeat them: even name can be absent
+func (builder *MetaDbBuilder) withDeclaration(entry *dwarfy.Entry) *dwarfy.Entry {
+	spec, ok := entry.Val("Specification").(dwarfy.Offset)
+	if !ok || entry.Tag != "Variable" {
+		return entry
+	}
+	declaration, ok := builder.data.Entries[spec]
+	if !ok || declaration.Tag != "Variable" {
+		return entry
+	}
+	completed := *entry
+	completed.Fields = append([]*dwarfy.Field{}, entry.Fields...)
+	for _, field := range declaration.Fields {
+		if field.Attr != "Declaration" && entry.AttrField(field.Attr) == nil {
+			completed.Fields = append(completed.Fields, field)
+		}
+	}
+	return &completed
+}
+
 func (builder *MetaDbBuilder) getIndex(offset dwarfy.Offset) (*IndexEntry, bool, error) {
 	entry, ok := builder.data.Entries[offset]
 	if !ok {
@@ -156,7 +177,7 @@ func (builder *MetaDbBuilder) getIndex(offset dwarfy.Offset) (*IndexEntry, bool,
 	indexEntry, ok := builder.index[offset]
 	if !ok { // create, init and register
 		indexEntry = &IndexEntry{Offset: offset}
-		indexEntry.fromEntry(entry)
+		indexEntry.fromEntry(builder.withDeclaration(entry))
 		builder.index[offset] = indexEntry
 	}
 	return indexEntry, ok, nil
-- 
2.43.0


From 4c270f4e77fd559aa657c7192bf99bbd893eefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 26/35] fix: function without prototype is printed with empty
 list of parameters

---
 src/entry_cdecl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 9edb017..4f2ae10 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -439,7 +439,8 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                         (p->subprogram_info.parameters[i].name != NULL)?p->subprogram_info.parameters[i].name:""));
                                     free(param_type_pattern);
                                 }else if (p->subprogram_info.parameters[i].func_parameter_info.unspecified_parameters != 0) {
-                                    param = strdup("...");
+                                    // "..." can't be the only one, it's function without prototype
+                                    param = strdup((p->subprogram_info.parameters_count == 1)?"":"...");
                                 }
                                 // param has to be non NULL
                                 if (param == NULL) {
@@ -547,7 +548,8 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 param = trim_trailing_spaces(dsprintf(param_type_pattern,""));
                                 free(param_type_pattern);
                             }else if (p->subroutine_type_info.parameters[i].func_parameter_info.unspecified_parameters != 0) {
-                                param = strdup("...");
+                                // "..." can't be the only one, it's function without prototype
+                                param = strdup((p->subroutine_type_info.parameters_count == 1)?"":"...");
                             }
                             // param has to be non NULL
                             if (param == NULL) {
-- 
2.43.0


From 2d23b5bda3570684aaa3d5f4cdb420d77753779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:15 +0000
Subject: [PATCH 27/35] fix: structures that differ only in the byte offset of
 a bit-field (DWARF 3) are different types

---
 pkg/metadb/metadb_types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 7383df6..795ca90 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -578,9 +578,8 @@ func (s *StructType) Signature(comparable bool) (string, error) {
 			}
 			if p.BitOffset != nil {
 				signature += "BitOffset:" + fmt.Sprintf("%d", *p.BitOffset) + ","
-			} else {
-				signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			}
+			signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			if p.DataBitOffset != nil {
 				signature += "DataBitOffset:" + fmt.Sprintf("%d", *p.DataBitOffset) + ","
 			}
-- 
2.43.0


From ba03e5ed1a1840e1824c1228709f363e321e94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 28/35] fix: metac_value_equal_ex compared pointers that close
 a loop by address in METAC_UPTR_as_values mode

---
 src/value_deep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index e0d0587..d6bf587 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1339,7 +1339,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                 if (metac_value_has_parameter_load(p1->p_val) == 0 &&
                         metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
-                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
+                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values && p1->loop_level == 0) {
                             /*treat pointer as value*/
                             int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                             if (_cmp < 0) {
-- 
2.43.0


From 965696ebe4b5843c19807cb1335625e911335e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 29/35] fix: building a memory map used freed entries when a
 shared object was met again after a refused one

---
 src/value_deep.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index d6bf587..cd2bb64 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -332,6 +332,16 @@ static metac_value_memory_map_mode_t const _default_value_memory_map_mode = {
     .unknown_ptr_mode = METAC_UPTR_fail,
 };
 
+/* delete entry on failure. the addresses of the deleted entries mustn't be used for the rest of the iteration,
+which isn't over yet, but which is going to fail */
+static void _fail_memory_entry_delete(struct metac_memory_map * p_map, struct metac_memory_entry * p_memory_entry) {
+    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+        hashmapFree(p_map->p_addr_ptr_val_to_memory_entry);
+        p_map->p_addr_ptr_val_to_memory_entry = NULL;
+    }
+    metac_memory_entry_delete(p_memory_entry);
+}
+
 struct metac_memory_map * metac_new_value_memory_map_ex(
     metac_value_t * p_val, 
     metac_value_memory_map_mode_t * p_map_mode,
@@ -561,7 +571,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 metac_value_delete(p_memb_val);
                             }
                         }else {
-                            metac_memory_entry_delete(p_member_memory_entry);
+                            _fail_memory_entry_delete(p_map, p_member_memory_entry);
                         }
                     }
 
@@ -571,7 +581,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         if (p_memory_entry->p_val == p) {
                             p_memory_entry->p_val = NULL;
                         }
-                        metac_memory_entry_delete(p_memory_entry);
+                        _fail_memory_entry_delete(p_map, p_memory_entry);
                     }
 
                     metac_recursive_iterator_fail(p_iter);
@@ -718,7 +728,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             if (p_memory_entry->p_val == p) {
                                 p_memory_entry->p_val = NULL;
                             }
-                            metac_memory_entry_delete(p_memory_entry);
+                            _fail_memory_entry_delete(p_map, p_memory_entry);
                         }
 
                         metac_recursive_iterator_fail(p_iter);
@@ -741,7 +751,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
                                     }
-                                    metac_memory_entry_delete(p_memory_entry);
+                                    _fail_memory_entry_delete(p_map, p_memory_entry);
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
@@ -752,7 +762,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
                                 }
-                                metac_memory_entry_delete(p_memory_entry);
+                                _fail_memory_entry_delete(p_map, p_memory_entry);
                                 metac_recursive_iterator_fail(p_iter);
                                 continue;
                             }
@@ -841,7 +851,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 metac_value_delete(p_memb_val);
                             }
                         }else {
-                            metac_memory_entry_delete(p_member_memory_entry);
+                            _fail_memory_entry_delete(p_map, p_member_memory_entry);
                         }
                     }
 
@@ -851,7 +861,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         if (p_memory_entry->p_val == p) {
                             p_memory_entry->p_val = NULL;
                         }
-                        metac_memory_entry_delete(p_memory_entry);
+                        _fail_memory_entry_delete(p_map, p_memory_entry);
                     }
 
                     metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 3c5b83adca55a87ac573a400ea72186be1381ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 30/35] fix: deep copy, comparison and free leaked or crashed
 when an allocation failed

---
 src/value_deep.c | 177 +++++++++++++++++++++++++++++++----------------
 1 file changed, 118 insertions(+), 59 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index cd2bb64..ec91832 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -174,41 +174,35 @@ void metac_memory_entry_delete(struct metac_memory_entry * p_memory_entry) {
     if (p_memory_entry == NULL) {
         return;
     }
-    metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_memory_entry);
-    for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
-        p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
-        int state = metac_recursive_iterator_get_state(p_iter);
-        switch (state) {
-            case METAC_R_ITER_start: {
-                if (p->p_val != NULL) {
-                    metac_value_delete(p->p_val);
-                }
-                if (p->children_count == 0) {
-                    assert(p->pp_children == NULL);
-                    free(p);
-                    metac_recursive_iterator_done(p_iter, NULL);
-                    continue;
-                }
-                for (metac_num_t i = 0; i < p->children_count; ++i) {
-                    if (p->pp_children[i] != NULL) {
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
-                    }
-                }
-                metac_recursive_iterator_set_state(p_iter, 1);
-                continue;
-            }
-            case 1: {
-                while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
-                    metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                }
-                free(p->pp_children);
-                free(p);
-                metac_recursive_iterator_done(p_iter, NULL);
-                continue;
+    /* don't allocate anything here - this is called also when we're out of memory */
+    struct metac_memory_entry * p = p_memory_entry;
+    while (p != NULL) {
+        if (p->children_count > 0) { /* children first */
+            --p->children_count;
+            struct metac_memory_entry * p_child = p->pp_children[p->children_count];
+            if (p_child != NULL) {
+                p_child->p_parent = p;
+                p = p_child;
             }
+            continue;
+        }
+        struct metac_memory_entry * p_next = (p != p_memory_entry)?p->p_parent:NULL;
+        if (p->p_val != NULL) {
+            metac_value_delete(p->p_val);
         }
+        free(p->pp_children);
+        free(p);
+        p = p_next;
     }
-    metac_recursive_iterator_free(p_iter);
+}
+
+/* append value as dependency. deletes the value if there is no memory */
+static int _append_value_dep(metac_recursive_iterator_t * p_iter, metac_value_t * p_val) {
+    int res = metac_recursive_iterator_create_and_append_dep(p_iter, p_val);
+    if (res != 0) {
+        metac_value_delete(p_val);
+    }
+    return res;
 }
 
 static int addr_ptr_key_hash(void* key) {
@@ -356,17 +350,27 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
 
     struct metac_memory_map *p_map = calloc(1, sizeof(*p_map));
     if (p_map == NULL) {
+        metac_value_delete(p_val);
         return NULL;
     }
     if (p_map_mode->memory_block_mode == METAC_MMODE_dag) {
         p_map->p_addr_ptr_val_to_memory_entry = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
         if (p_map->p_addr_ptr_val_to_memory_entry == NULL) {
             free(p_map);
+            metac_value_delete(p_val);
             return NULL;
         }
     }
 
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+            hashmapFree(p_map->p_addr_ptr_val_to_memory_entry);
+        }
+        free(p_map);
+        metac_value_delete(p_val);
+        return NULL;
+    }
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
         int state = metac_recursive_iterator_get_state(p_iter);
@@ -423,7 +427,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                             continue;
                                         }
                                         if (ev.p_return_value != NULL) {
-                                            metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                            if (_append_value_dep(p_iter, ev.p_return_value) != 0) {
+                                                metac_recursive_iterator_fail(p_iter);
+                                                continue;
+                                            }
                                             children_count = 1;
                                         }
                                     }
@@ -440,7 +447,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     failure = 1;
                                     break;
                                 }
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                                if (_append_value_dep(p_iter, p_memb_val) != 0) {
+                                    failure = 1;
+                                    break;
+                                }
                                 ++children_count;
                             }
                         }
@@ -496,7 +506,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                            if (_append_value_dep(p_iter, p_el_val) != 0) {
+                                failure = 1;
+                                break;
+                            }
                             ++children_count;
                         }
 
@@ -702,12 +715,18 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         continue;                        
                     }
                     /* finally we have p_arr_val which will be the child */
-                    metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
                     struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 1);
                     if (p_memory_entry == NULL) {
+                        metac_value_delete(p_arr_val);
                         metac_recursive_iterator_fail(p_iter);
                         continue;                 
                     }
+                    if (_append_value_dep(p_iter, p_arr_val) != 0) {
+                        p_memory_entry->p_val = NULL; // p_in still must exist if we fail
+                        _fail_memory_entry_delete(p_map, p_memory_entry);
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
 
                     metac_recursive_iterator_set_context(p_iter, p_memory_entry);
                     metac_recursive_iterator_set_state(p_iter, 1);
@@ -793,7 +812,10 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (_append_value_dep(p_iter, p_param_val) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
@@ -974,7 +996,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            p_context->free_fn(dst);
             p_context->preallocation_failed = 1;
             return false;
         }
@@ -997,6 +1019,19 @@ static bool _value_copy_free(void* key, void* value, void* context) {
     return true;
 }
 
+/* append entry with already assigned destination value as dependency. deletes the destination value on failure */
+static int _append_copy_dep(metac_recursive_iterator_t * p_iter, struct metac_memory_entry * p_entry) {
+    if (p_entry->private_data == NULL) {
+        return -(ENOMEM);
+    }
+    int res = metac_recursive_iterator_create_and_append_dep(p_iter, p_entry);
+    if (res != 0) {
+        metac_value_delete((metac_value_t*)p_entry->private_data);
+        p_entry->private_data = NULL;
+    }
+    return res;
+}
+
 /* copy src to dst (with rewriting data), be careful, dst must have enough space.
 don't use flexibe array. instead make val as a ptr to that flexible array so 
 the function will create a pointer and create a deep copy for everything it points to.
@@ -1062,13 +1097,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* in the tree mode we use this to keep all allocated blocks (in case of failure all of them must be freed) */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;
+    }
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1081,6 +1117,12 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
 
     context.p_map->p_top_entry->private_data = p_dst_val;
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(context.p_map->p_top_entry);
+    if (p_iter == NULL) {
+        hashmapForEach(context.src_to_dst, _value_copy_free, &context);
+        hashmapFree(context.src_to_dst);
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;
+    }
     for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
         metac_value_t * p_dst_val = (metac_value_t *)p->private_data;
@@ -1089,6 +1131,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         int state = metac_recursive_iterator_get_state(p_iter);
         switch (state) {
             case METAC_R_ITER_start: {
+                metac_flag_t failure = 0;
                 void * p_dst_children_addr_override = NULL;
                 if (metac_value_has_parameter_load(p->p_val) == 0 /* va_list parameter can be seen as pointer */ &&
                         metac_value_is_pointer(p->p_val)) {
@@ -1112,6 +1155,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1229,10 +1277,13 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
                         if (p->pp_children[i] != NULL) {
                             p->pp_children[i]->private_data = metac_parameter_storage_new_param_value(p_dst_param_storage, i);
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                            if (_append_copy_dep(p_iter, p->pp_children[i]) != 0) {
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
-                    metac_recursive_iterator_set_state(p_iter, 1);
+                    metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2);
                     continue;
                 }
                 /* complex types will be covered here: */
@@ -1244,14 +1295,19 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_size_t delta = metac_value_addr(p->pp_children[i]->p_val) - metac_value_addr(p->p_val);
                             p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                        if (_append_copy_dep(p_iter, p->pp_children[i]) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2);
                 continue;
             }
-            case 1: {
-                int gfail = 0;
+            case 1:
+            case 2:
+            default: {
+                int gfail = (state != 1); /* state 2 - not all children were added, failure cleanup */
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p_children = NULL;
@@ -1260,13 +1316,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_has_parameter_load(p->p_val) == 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
@@ -1328,6 +1377,11 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
     struct metac_memory_entry * p2 = p_map2->p_top_entry;
     p1->private_data = p2;
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p1);
+    if (p_iter == NULL) {
+        metac_value_memory_map_delete(p_map2);
+        metac_value_memory_map_delete(p_map1);
+        return -(ENOMEM);
+    }
     for (struct metac_memory_entry * p1 = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p1 != NULL;
         p1 = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
         struct metac_memory_entry * p2 = (struct metac_memory_entry *)p1->private_data;
@@ -1336,6 +1390,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
         int state = metac_recursive_iterator_get_state(p_iter);
         switch (state) {
             case METAC_R_ITER_start: {
+                metac_flag_t failure = 0;
                 if (p1->byte_size != p2->byte_size ||
                     p1->children_count != p2->children_count ||
                     p1->loop_level != p2->loop_level ||
@@ -1403,16 +1458,20 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     assert(p1->pp_children[i] != NULL && p2->pp_children[i] != NULL);
                     if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL) {
                         p1->pp_children[i]->private_data = p2->pp_children[i];
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2);
                 continue;
 
             }
             case 1:
+            case 2:
             default: {
-                int gfail = 0;
+                int gfail = (state != 1); /* state 2 - not all children were added, failure cleanup */
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p1_children = NULL;
-- 
2.43.0


From 2ae8b9951d42bf4bdb7bfce11c8fe8ad03cae125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 31/35] fix: tag handlers ignored failed allocations, set_tag
 leaked the tag text

---
 src/entry_tag.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 66fe2d9..c182c2c 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -227,6 +227,8 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
+        /* context still belongs to the caller */
+        free(p_local_tag->p_tagstring);
         free(p_local_tag);
         return -(EFAULT);
     }
@@ -398,6 +400,9 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         if (metac_value_has_members(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(EFAULT);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -419,6 +424,9 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(EFAULT);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -478,7 +486,7 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         }
         metac_num_t content_len = strlen(ptr) + 1;
         p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-        return 0;
+        return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
     }    
     return 0;
 }
@@ -522,7 +530,7 @@ int metac_handle_container_of(metac_value_walker_hierarchy_t *p_hierarchy, metac
             }
             p_ev->p_return_value = metac_new_element_count_value(p_container_ptr_val, 1);
             metac_value_delete(p_container_ptr_val);
-            return 0;
+            return (p_ev->p_return_value != NULL)?0:(-(EFAULT));
         }
     }
     return 0;
@@ -617,6 +625,9 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
 
                 for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                     metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                    if (p_sibling_val == NULL) {
+                        return -(EFAULT);
+                    }
                     if (metac_value_name(p_sibling_val) == NULL ||
                         strcmp(metac_value_name(p_sibling_val),p_cnxt->sibling_selector_fieldname) !=0 ) {
                         metac_value_delete(p_sibling_val);
@@ -767,6 +778,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
             return -(EINVAL);
         }
         metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, type_id);
+        if (p_sibling_val == NULL) {
+            return -(EFAULT);
+        }
         if (metac_value_num(p_sibling_val, &content_type) != 0) {
             metac_value_delete(p_sibling_val);
             return -(EINVAL);
@@ -778,6 +792,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
             metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_count_fieldname);
 
             metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, count_id);
+            if (p_sibling_val == NULL) {
+                return -(EFAULT);
+            }
             if (metac_value_num(p_sibling_val, &content_count) != 0) {
                 metac_value_delete(p_sibling_val);
                 return -(EINVAL);
-- 
2.43.0


From fb94410d5d069da034a243a2af7ee0b58fd2c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 32/35] fix: capturing arguments leaked or double freed when an
 allocation failed

---
 src/value.c           | 3 +++
 src/value_with_args.c | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/value.c b/src/value.c
index c3065fb..d72152e 100644
--- a/src/value.c
+++ b/src/value.c
@@ -819,6 +819,9 @@ metac_value_t * metac_new_value_with_call_params(metac_entry_t *p_entry) {
     metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
     if (p_param_storage != NULL) {
         p_val = metac_new_value(p_entry, p_param_storage);
+        if (p_val == NULL) {
+            metac_parameter_storage_delete(p_param_storage);
+        }
     }
     return p_val;
 }
diff --git a/src/value_with_args.c b/src/value_with_args.c
index 5ba58f6..e41562b 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -151,7 +151,7 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
     assert(metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va_list_parameter(p_entry) != 0);
 
     metac_parameter_storage_t * p_inner_param_storage = metac_new_parameter_storage();
-    _check_(p_entry == NULL, -(ENOMEM));
+    _check_(p_inner_param_storage == NULL, -(ENOMEM));
 
     metac_parameter_t * p_param = _parameter_storage_append_by_buffer(p_param_storage,
         0,
@@ -424,8 +424,7 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
-                                addr = NULL;
+                                addr = NULL; /* the buffer belongs to p_subprog_load */
                                 break;
                             }
                         }
@@ -450,6 +449,10 @@ static metac_value_t * _value_parameter_wrap(metac_value_t * p_val, metac_tag_ma
     // the only drawback is - we need to add special parameters into event:
     // va_list_param_id and p_va_list_load. 
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        metac_value_delete(p_val);
+        return NULL;
+    }
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
         int state = metac_recursive_iterator_get_state(p_iter);
-- 
2.43.0


From c65d394f80d86f5645a07a0c83e480f9237bf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 33/35] fix: metac_entry_cdecl leaked, double freed or crashed
 when an allocation failed

---
 src/entry_cdecl.c | 103 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 32 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 4f2ae10..183b0cc 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -33,16 +33,32 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
         return NULL;
     }
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_entry);
+    if (p_iter == NULL) {
+        return NULL;
+    }
 
     for (metac_entry_t * p = (metac_entry_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_entry_t *)metac_recursive_iterator_next(p_iter)) {
         int state = metac_recursive_iterator_get_state(p_iter);
+        if (state == 2) { // fail-cleanup
+            while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                if (type_pattern != NULL){
+                    free(type_pattern);
+                }
+            }
+            metac_recursive_iterator_fail(p_iter);
+            continue;
+        }
         switch(p->kind) {
             case METAC_KND_variable: {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->variable_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->variable_info.type);// ask to process type on the next level
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->variable_info.type) != 0) {// ask to process type on the next level
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                          continue;
@@ -76,6 +92,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 char * res = dsprintf("%s %%s",p->name);
                 if (res == NULL) {
                     metac_recursive_iterator_fail(p_iter);
+                    continue;
                 }
                 metac_recursive_iterator_done(p_iter, res);
                 continue;
@@ -127,7 +144,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->array_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->array_type_info.type);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->array_type_info.type) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -170,7 +190,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->qual_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->qual_type_info.type);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->qual_type_info.type) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -243,7 +266,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                      case METAC_R_ITER_start: {
                         if (p->pointer_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pointer_type_info.type);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->pointer_type_info.type) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
                         metac_recursive_iterator_set_state(p_iter, 1);
                         continue;
@@ -300,12 +326,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         // otherwise we have anonimous data type and we'll need to identify it by declaration
+                        metac_flag_t failure = 0;
                         for (int i = 0; i < p->structure_type_info.members_count; ++i) {
                             if (p->structure_type_info.members[i].member_info.type != NULL) {
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type);
+                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p->structure_type_info.members[i].member_info.type) != 0) {
+                                    failure = 1;
+                                    break;
+                                }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2);
                         continue;
                     }
                     case 1: {
@@ -332,6 +362,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                     name = dsprintf("%s",
                                         p->structure_type_info.members[i].name);        
                                 }
+                                if (name == NULL) {
+                                    free(type_pattern);
+                                    failure = 1;
+                                    break;
+                                }
                             }
                             // build field out of returned pattern and field name (can be absent)
                             char *field = trim_trailing_spaces(dsprintf((
@@ -355,11 +390,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (res != NULL) {
                                 free(res);
                             }
-                            if (new_res == NULL) {
+                            res = new_res;
+                            if (res == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            res = new_res;
                         }
                         if (failure != 0) {
                             if (res != NULL) {
@@ -383,16 +418,6 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
-                    case 2: { // fail-cleanup
-                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
-                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                            if (type_pattern != NULL){
-                                free(type_pattern);
-                            }
-                        }
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
                 }
             }
             break;
@@ -400,17 +425,24 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->subprogram_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type);// ask to process type on the next level
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.type) != 0) {// ask to process type on the next level
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
+                        metac_flag_t failure = 0;
                         for (int i = 0; i < p->subprogram_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subprogram_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
                                     p->subprogram_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type);
+                                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subprogram_info.parameters[i].func_parameter_info.type) != 0) {
+                                        failure = 1;
+                                        break;
+                                    }
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2);
                         continue;
                     }
                     case 1: {
@@ -419,7 +451,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subprogram_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -458,11 +490,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 if (param != NULL) {
                                     free(param);
                                 }
-                                if (new_params == NULL) {
+                                params = new_params;
+                                if (params == NULL) {
                                     failure = 1;
                                     break;
                                 }
-                                params = new_params;
                             }
                         }
                         if (failure != 0){
@@ -472,7 +504,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // form declarator name(params)
@@ -510,17 +542,24 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->subroutine_type_info.type != NULL) {
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type);// ask to process type on the next level
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.type) != 0) {// ask to process type on the next level
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                         }
+                        metac_flag_t failure = 0;
                         for (int i = 0; i < p->subroutine_type_info.parameters_count; ++i) {
                             if (p->subprogram_info.parameters[i].kind == METAC_KND_func_parameter) {
                                 if (p->subroutine_type_info.parameters[i].func_parameter_info.unspecified_parameters == 0 &&
                                     p->subroutine_type_info.parameters[i].func_parameter_info.type != NULL) {
-                                    metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type);
+                                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p->subroutine_type_info.parameters[i].func_parameter_info.type) != 0) {
+                                        failure = 1;
+                                        break;
+                                    }
                                 }
                             }
                         }
-                        metac_recursive_iterator_set_state(p_iter, 1);
+                        metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2);
                          continue;
                     }
                     case 1: {
@@ -529,7 +568,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subroutine_type_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -567,11 +606,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (param != NULL) {
                                 free(param);
                             }
-                            if (new_params == NULL) {
+                            params = new_params;
+                            if (params == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            params = new_params;
                         }
                         if (failure != 0) {
                             if (params != NULL) {
@@ -580,7 +619,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // form declarator (%s)(params)
-- 
2.43.0


From b4bb00cadb521d8f56008782eedba1c3f84d6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 34/35] fix: metac_value_string_ex leaked, crashed or shortened
 the text when an allocation failed

---
 src/value_string.c | 104 +++++++++++++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 28 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 20b7b09..9e6ea60 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -5,39 +5,42 @@
 
 #include <assert.h>
 #include <ctype.h> /*isprint*/
+#include <errno.h> /*ENOMEM*/
 
 #ifndef dsprintf
 dsprintf_render_with_buf(64)
 #define dsprintf(_x_...) dsprintf64( _x_)
 #endif
 
-static char * _dprintable_string(metac_value_t * p_array_val) {
+/* returns 0 and NULL in *pp_res if it's not a printable string */
+static int _dprintable_string(metac_value_t * p_array_val, char ** pp_res) {
+    *pp_res = NULL;
     if (p_array_val == NULL || metac_value_has_elements(p_array_val) ==0 ) {
-        return NULL;
+        return 0;
     }
 
     char * p_string = (char*)metac_value_addr(p_array_val);
     if (p_string == NULL) {
-        return NULL;
+        return 0;
     }
 
     metac_entry_t * p_element_final_entry = metac_entry_final_entry(metac_entry_element_entry(metac_value_entry(p_array_val)), NULL);
     if (p_element_final_entry == NULL) {
-        return NULL;
+        return 0;
     }
 
     if (metac_entry_is_base_type(p_element_final_entry) == 0 ||
         strcmp(metac_entry_base_type_name(p_element_final_entry),"char") != 0) {
-        return NULL;
+        return 0;
     }
 
     metac_num_t len = metac_value_element_count(p_array_val);
     if (len < 2) {
-        return NULL;
+        return 0;
     }
 
     if (p_string[len - 1] != 0) {
-        return NULL;
+        return 0;
     }
 
     struct {
@@ -73,12 +76,12 @@ static char * _dprintable_string(metac_value_t * p_array_val) {
             ++alloc_len;
             continue;
         }
-        return NULL;
+        return 0;
     }
 
     char * res = calloc(alloc_len, sizeof(char));
     if (res == NULL) {
-        return NULL;
+        return -(ENOMEM);
     }
     metac_num_t j = 0;
     for (metac_num_t i = 0 ; i < (len - 1); ++i) {
@@ -107,6 +110,16 @@ static char * _dprintable_string(metac_value_t * p_array_val) {
 
     assert(j == alloc_len);
 
+    *pp_res = res;
+    return 0;
+}
+
+/* append value as dependency. deletes the value if there is no memory */
+static int _append_string_dep(metac_recursive_iterator_t * p_iter, metac_value_t * p_val) {
+    int res = metac_recursive_iterator_create_and_append_dep(p_iter, p_val);
+    if (res != 0) {
+        metac_value_delete(p_val);
+    }
     return res;
 }
 
@@ -116,6 +129,9 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
     }
 
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        return NULL;
+    }
 
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -238,7 +254,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 continue;                        
                             }
                             /* try to process everything as array */
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
+                            if (_append_string_dep(p_iter, p_arr_val) != 0) {
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                             metac_recursive_iterator_set_state(p_iter, 1);
                             continue;
                         }
@@ -327,7 +346,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                         continue;
                                     }
                                     if (ev.p_return_value != NULL) {
-                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                        if (_append_string_dep(p_iter, ev.p_return_value) != 0) {
+                                            metac_recursive_iterator_fail(p_iter);
+                                            continue;
+                                        }
                                     }
                                 }
                             }
@@ -339,7 +361,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                            if (_append_string_dep(p_iter, p_memb_val) != 0) {
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
                     if (failure != 0) {
@@ -423,7 +448,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     out = dsprintf("{%s}", prev_out);
                     free(prev_out);
                     if (out == NULL) {
-                        metac_recursive_iterator_done(p_iter, out);
+                        metac_recursive_iterator_fail(p_iter);
                         continue;                        
                     }
                     metac_recursive_iterator_done(p_iter, out);
@@ -486,19 +511,24 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     }
 
                     // special case - char * with printable symbols and 0 as the last symbol
-                    char * printable_string = _dprintable_string(p_local);
-                    if (printable_string != NULL) {
-                        char * out = dsprintf("\"%s\"", printable_string);
-                        free(printable_string);
-                        if (out != NULL) {
-                            // cleanup
-                            if (p_non_flexible != NULL) {
-                                metac_value_delete(p_non_flexible);
-                                p_local = p;
-                            }
-                            metac_recursive_iterator_done(p_iter, out);
+                    char * printable_string = NULL;
+                    if (_dprintable_string(p_local, &printable_string) != 0 || printable_string != NULL) {
+                        char * out = NULL;
+                        if (printable_string != NULL) {
+                            out = dsprintf("\"%s\"", printable_string);
+                            free(printable_string);
+                        }
+                        // cleanup
+                        if (p_non_flexible != NULL) {
+                            metac_value_delete(p_non_flexible);
+                            p_local = p;
+                        }
+                        if (out == NULL) {
+                            metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
+                        metac_recursive_iterator_done(p_iter, out);
+                        continue;
                     }
 
                     metac_num_t mcount = metac_value_element_count(p_local);
@@ -508,7 +538,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                        if (_append_string_dep(p_iter, p_el_val) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (p_non_flexible != NULL) {
                         metac_value_delete(p_non_flexible);
@@ -569,6 +602,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     if (prev_out) {
                         free(prev_out);
                     }
+                    if (out == NULL) {
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                     metac_recursive_iterator_done(p_iter, out);
                     continue;
                 }
@@ -605,7 +642,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (_append_string_dep(p_iter, p_param_val) != 0) {
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
@@ -633,7 +673,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -641,7 +681,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -730,6 +770,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                         if (prev_out) {
                             free(prev_out);
                         }
+                        if (out == NULL) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
                         metac_recursive_iterator_done(p_iter, out);
                         continue;
                     }
@@ -742,6 +786,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     if (prev_out) {
                         free(prev_out);
                     }
+                    if (out == NULL) {
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                     metac_recursive_iterator_done(p_iter, out);
                     continue;
                 }
-- 
2.43.0


From 3d67a46b77b3e22208fd7e00ee2352eee7122df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 35/35] fix: metac_entry_is_va_list_parameter answered wrongly
 when an allocation failed

---
 src/entry.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index e43ada6..ff47555 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -644,15 +644,16 @@ metac_flag_t metac_entry_is_va_list_parameter(metac_entry_t * p_entry) {
     _check_(metac_entry_kind(p_entry) != METAC_KND_func_parameter, 0);
     _check_(p_entry->func_parameter_info.unspecified_parameters != 0, 0);
     
-    char * cdecl = metac_entry_cdecl(p_entry->func_parameter_info.type);
-    _check_(cdecl == NULL, 0);
-    int cmp_res = strcmp(cdecl, "va_list %s");
-    if (cmp_res != 0) { // linux
-        cmp_res = strcmp(cdecl, "struct __va_list_tag * %s");
+    /* don't build the declaration to check it: without memory va_list would look like a regular parameter */
+    metac_entry_t * p_type = p_entry->func_parameter_info.type;
+    _check_(p_type == NULL, 0);
+    if (p_type->kind == METAC_KND_pointer_type) { // linux: struct __va_list_tag *
+        metac_entry_t * p_target = p_type->pointer_type_info.type;
+        return p_target != NULL && p_target->kind == METAC_KND_struct_type &&
+            p_target->name != NULL && strcmp(p_target->name, "__va_list_tag") == 0;
     }
-    free(cdecl);
-
-    return (cmp_res == 0);
+    return (p_type->kind == METAC_KND_typedef || p_type->kind == METAC_KND_base_type) &&
+        p_type->name != NULL && strcmp(p_type->name, "va_list") == 0;
 }
 
 metac_entry_t * metac_entry_parameter_entry(metac_entry_t *p_entry) {
-- 
2.43.0

