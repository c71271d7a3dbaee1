From b59684dc7dacd2d69a06a3dd942317f9f47271e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 01/63] fix: require reports its failures through the error
 stream

---
 std/yasl-std-require.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..a8e9948 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -36,7 +36,7 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 
 int YASL_require(struct YASL_State *S) {
 	if (!YASL_isstr(S)) {
-		// TODO error message
+		YASLX_print_err_bad_arg_type(S, "require", 0, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
@@ -67,7 +67,7 @@ int YASL_require(struct YASL_State *S) {
 	int status = YASL_execute(Ss);
 
 	if (status != YASL_MODULE_SUCCESS) {
-		puts("Not a valid module");
+		YASL_print_err(S, "%s is not a valid module.", mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
-- 
2.43.0


From ab0776df5ddfc9a7a3f41d84ea959c0e26546f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 02/63] fix: define the API functions yasl.h declares for
 userdata and userptr

---
 yasl.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/yasl.c b/yasl.c
index a7da9bb..119598a 100644
--- a/yasl.c
+++ b/yasl.c
@@ -511,6 +511,14 @@ bool YASL_isuserdata(struct YASL_State *S, const char *tag) {
 	return vm_isuserdata(&S->vm) && YASL_GETUSERDATA(vm_peek(&S->vm))->tag == tag;
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_isuserptr(&S->vm);
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_isuserptr(&S->vm, S->vm.fp + 1 + n);
+}
+
 bool YASL_peekbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_peekbool(&S->vm);
@@ -595,6 +603,20 @@ char *YASL_popcstr(struct YASL_State *S) {
 	return tmp;
 }
 
+void *YASL_peekuserdata(struct YASL_State *S) {
+	if (vm_isuserdata(&S->vm)) {
+		return YASL_GETUSERDATA(vm_peek(&S->vm))->data;
+	}
+	return NULL;
+}
+
+void *YASL_peekuserptr(struct YASL_State *S) {
+	if (YASL_isuserptr(S)) {
+		return YASL_GETUSERPTR(vm_peek(&S->vm));
+	}
+	return NULL;
+}
+
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
 	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
 }
-- 
2.43.0


From bc3fbddcdb3d4a0a9ede19a38d4034590906cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 03/63] fix: YASLX_checkn{int,float,bool} name the type of the
 checked argument

---
 yasl_aux.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yasl_aux.c b/yasl_aux.c
index f5f8573..3380165 100644
--- a/yasl_aux.c
+++ b/yasl_aux.c
@@ -27,7 +27,7 @@ void YASLX_print_err_bad_arg_type(struct YASL_State *S,
 
 yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnint(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknint(S, n);
@@ -35,7 +35,7 @@ yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 
 yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnfloat(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknfloat(S, n);
@@ -43,7 +43,7 @@ yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n)
 
 bool YASLX_checknbool(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnbool(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknbool(S, n);
-- 
2.43.0


From 6c1f4b71fb21e385967eeb4171a098eec7089f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 04/63] fix: YASL_pop{bool,float,int} remove the top of the
 stack whatever its type, as documented

---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index 119598a..f2ff110 100644
--- a/yasl.c
+++ b/yasl.c
@@ -538,6 +538,7 @@ bool YASL_popbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_popbool(&S->vm);
 	}
+	YASL_pop(S);
 	return false;
 }
 
@@ -560,6 +561,7 @@ yasl_float YASL_popfloat(struct YASL_State *S) {
 	if (YASL_isfloat(S)) {
 		return vm_popfloat(&S->vm);
 	}
+	YASL_pop(S);
 	return 0.0;
 }
 
@@ -582,6 +584,7 @@ yasl_int YASL_popint(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		return vm_popint(&S->vm);
 	}
+	YASL_pop(S);
 	return 0;
 }
 
-- 
2.43.0


From 6ed47c1c4f5fc6e73ed42abc0658e51a2adb2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 05/63] fix: give every builtin type a (possibly empty)
 metatable slot

---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..1e0c78a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..1ac7703 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,7 +16,7 @@
 
 
 #define NUM_FRAMES 1000
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From 53143418c69ebf114ebed9594aebdc4b935f00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 06/63] fix: too many nested for loops is a StackOverflow
 error, not a write past loopframes

---
 interpreter/VM.c | 4 ++++
 interpreter/VM.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 1e0c78a..e39568e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1519,6 +1519,10 @@ void vm_executenext(struct VM *const vm) {
 	}
 	case O_INITFOR:
 		inc_ref(&vm_peek(vm));
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
 		vm->loopframes[vm->loopframe_num].iterable = vm_pop(vm);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 1ac7703..84ec921 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_LOOPFRAMES 16
 #define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -99,7 +100,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From 9d39e148f4118602df6f9f14501c8675db1df9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 07/63] fix: removing an absent key leaves the size of a table
 or set alone

---
 data-structures/YASL_Set.c   | 3 ++-
 data-structures/YASL_Table.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..3d99a23 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -113,12 +113,13 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 			if ((isequal(&item, &key))) {
 				dec_ref(&item);
 				set->items[index] = YASL_END();
+				set->count--;
+				return;
 			}
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..0f3a8e7 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -193,10 +193,11 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 			if ((isequal_typed(&item.key, &key))) {
 				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->count--;
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
 }
-- 
2.43.0


From 9d57312703c5afcbd7e2b007942c174c7c56806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 08/63] fix: count removed slots as load, so probing a table or
 set always reaches a free slot

---
 data-structures/YASL_Set.c   | 13 +++++++++++--
 data-structures/YASL_Set.h   |  1 +
 data-structures/YASL_Table.c | 13 +++++++++++--
 data-structures/YASL_Table.h |  2 ++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 3d99a23..6a7a50f 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -10,6 +10,7 @@ static struct YASL_Set *set_new_sized(const size_t base_size) {
 	set->base_size = base_size;
 	set->size = next_prime(set->base_size);
 	set->count = 0;
+	set->tombstones = 0;
 	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 	return set;
 }
@@ -36,6 +37,7 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 	}
 	set->base_size = new_set->base_size;
 	set->count = new_set->count;
+	set->tombstones = new_set->tombstones;
 
 	const size_t tmp_size = set->size;
 	set->size = new_set->size;
@@ -63,8 +65,14 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 		return false;
 	}
 
-	const size_t load = set->count * 100 / set->size;
-	if (load > 70) set_resize_up(set);
+	const size_t load = (set->count + set->tombstones) * 100 / set->size;
+	if (load > 70) {
+		if (set->tombstones > set->count) {
+			set_resize(set, set->base_size);
+		} else {
+			set_resize_up(set);
+		}
+	}
 	size_t index = get_hash(value, set->size, 0);
 	inc_ref(&value);
 	struct YASL_Object curr_item = set->items[index];
@@ -114,6 +122,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 				dec_ref(&item);
 				set->items[index] = YASL_END();
 				set->count--;
+				set->tombstones++;
 				return;
 			}
 		}
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..f11e48a 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -10,6 +10,7 @@ struct YASL_Set {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t tombstones;  // removed slots that still lengthen the probe sequences
 	struct YASL_Object *items;
 };
 
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 0f3a8e7..9da01dc 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -31,6 +31,7 @@ struct YASL_Table *table_new_sized(const size_t base_size) {
 	table->base_size = base_size;
 	table->size = next_prime(table->base_size);
 	table->count = 0;
+	table->tombstones = 0;
 	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
 	return table;
 }
@@ -76,6 +77,7 @@ static void table_resize(struct YASL_Table *const table, const size_t base_size)
 	}
 	table->base_size = new_table->base_size;
 	table->count = new_table->count;
+	table->tombstones = new_table->tombstones;
 
 	const size_t tmp_size = table->size;
 	table->size = new_table->size;
@@ -121,8 +123,14 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
 	YASL_ASSERT(ishashable(&key), "`key` must be hashable");
 
-	const size_t load = table->count * 100 / table->size;
-	if (load > 70) table_resize_up(table);
+	const size_t load = (table->count + table->tombstones) * 100 / table->size;
+	if (load > 70) {
+		if (table->tombstones > table->count) {
+			table_resize(table, table->base_size);
+		} else {
+			table_resize_up(table);
+		}
+	}
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
 	struct YASL_Table_Item curr_item = table->items[index];
@@ -194,6 +202,7 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 				del_item(&item);
 				table->items[index] = TOMBSTONE;
 				table->count--;
+				table->tombstones++;
 				return;
 			}
 		}
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..e1faef3 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -15,6 +15,7 @@
 	.size = next_prime(TABLE_BASESIZE),\
 	.base_size = TABLE_BASESIZE,\
 	.count = 0,\
+	.tombstones = 0,\
 	.items = (struct YASL_Table_Item *)calloc((size_t) next_prime(TABLE_BASESIZE), sizeof(struct YASL_Table_Item))\
 })
 
@@ -35,6 +36,7 @@ struct YASL_Table {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t tombstones;  // removed slots that still lengthen the probe sequences
 	struct YASL_Table_Item *items;
 };
 
-- 
2.43.0


From 15b855fb8383646c04458366c31d65c6a7db2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 09/63] fix: table.clear leaves a table whose size its probe
 sequences can cover

---
 interpreter/table_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..a662132 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -251,7 +251,9 @@ int table_clear(struct YASL_State *S) {
 	}
 
 	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
+	ht->tombstones = 0;
+	ht->base_size = TABLE_BASESIZE;
+	ht->size = next_prime(ht->base_size);
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
 	dec_ref(&vm_peek((struct VM *) S));
-- 
2.43.0


From bfc70c3849c6049d1d9a5683fe506acfd3da0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 10/63] fix: set.clear removes every element, also when there
 are many

---
 data-structures/YASL_Set.c | 9 +++++++++
 data-structures/YASL_Set.h | 1 +
 std/yasl-std-collections.c | 4 +---
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 6a7a50f..1992c24 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -131,6 +131,15 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	}
 }
 
+void YASL_Set_clear(struct YASL_Set *const set) {
+	FOR_SET(i, item, set) {
+		dec_ref(item);
+		set->items[i] = YASL_END();
+		set->count--;
+		set->tombstones++;
+	}
+}
+
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
 	struct YASL_Set *tmp = YASL_Set_new();
 	FOR_SET(i, iteml, left) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index f11e48a..a7e4b44 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -18,6 +18,7 @@ struct YASL_Set *YASL_Set_new(void);
 void YASL_Set_del(void *s);
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) /* YASL_WARN_UNUSED */;
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key);
+void YASL_Set_clear(struct YASL_Set *const set);
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key);
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right);
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..045bfbf 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -295,9 +295,7 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
-	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
-	}
+	YASL_Set_clear(set);
 	return 1;
 }
 
-- 
2.43.0


From dfda772fa53745fe6b32ed53cc07ff9a8fc0cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 11/63] fix: undef cannot be a key of a table or set, and
 storing undef removes the key

---
 data-structures/YASL_Table.c | 5 +++++
 interpreter/YASL_Object.c    | 1 -
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 9da01dc..2b6aa90 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -147,6 +147,11 @@ bool YASL_Table_insert(struct YASL_Table *const table, const struct YASL_Object
 	if (!ishashable(&key)) {
 		return false;
 	}
+	if (obj_isundef(&value)) {
+		// an undef value marks a free slot
+		YASL_Table_rm(table, key);
+		return true;
+	}
 	YASL_Table_insert_fast(table, key, value);
 	return true;
 }
diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..d735ab8 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -80,7 +80,6 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 
 bool ishashable(const struct YASL_Object *const v) {
 	return (
-		obj_isundef(v) ||
 		obj_isbool(v) ||
 		obj_isfloat(v) ||
 		obj_isint(v) ||
-- 
2.43.0


From bf62fcf9546aa88be3198a3445db940fff4587e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 12/63] fix: a table entry whose value is undef still occupies
 its slot

---
 data-structures/YASL_Table.c | 2 +-
 data-structures/YASL_Table.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 2b6aa90..2232730 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -108,7 +108,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (!obj_isundef(&curr_item.key)) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index e1faef3..48ec2dc 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -8,7 +8,7 @@
 #define TABLE_BASESIZE 30
 
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
-                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->key))
 
 
 #define NEW_TABLE() ((struct YASL_Table){\
-- 
2.43.0


From baa235f8f2653e28b4c8d4a22f47999fabea7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 13/63] fix: fold === on floats and ! of NaN to what the VM
 computes

---
 compiler/middleend.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..ca9e341 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -171,11 +171,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -213,11 +211,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -255,11 +251,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -337,7 +331,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // only NaN is falsey
 			break;
 		default:
 			break;
-- 
2.43.0


From 2a14e00f2e44b8fefe520fa3a4adc37f8e73e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 14/63] fix: dividing the smallest int by -1 and shifting by
 more than 63 do not trap

---
 compiler/middleend.c | 12 ++++++++----
 interpreter/VM.c     | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index ca9e341..ce7eff3 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -136,10 +136,14 @@ static void fold_BinOp(struct Node *const node) {
 			// TODO
 			break;
 		case T_DGT:
-			FOLD_BINOP_INT_INT(left, right, >>, int);
+			if (right->value.ival >= 0 && right->value.ival < 64) {
+				FOLD_BINOP_INT_INT(left, right, >>, int);
+			}
 			break;
 		case T_DLT:
-			FOLD_BINOP_INT_INT(left, right, <<, int);
+			if (right->value.ival >= 0 && right->value.ival < 64) {
+				FOLD_BINOP_INT_INT(left, right, <<, int);
+			}
 			break;
 		case T_PLUS:
 			FOLD_BINOP_INT_INT(left, right, +, int);
@@ -154,12 +158,12 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index e39568e..ea49dba 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -350,10 +350,24 @@ INT_BINOP(bor, |)
 INT_BINOP(bxor, ^)
 INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
-INT_BINOP(shift_left, <<)
-INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+// Only the low 6 bits of a shift count matter, and -1 as a divisor is handled without dividing (the quotient of the
+// smallest int does not fit, which traps).
+static yasl_int shift_left(yasl_int left, yasl_int right) {
+	return (yasl_int)((uint64_t)left << (right & 63));
+}
+
+static yasl_int shift_right(yasl_int left, yasl_int right) {
+	return left >> (right & 63);
+}
+
+static yasl_int modulo(yasl_int left, yasl_int right) {
+	return right == -1 ? 0 : left % right;
+}
+
+static yasl_int idiv(yasl_int left, yasl_int right) {
+	return right == -1 ? (yasl_int)(0 - (uint64_t)left) : left / right;
+}
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From c02b958f5c1fe25917f46ff297c433cb2023c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 15/63] fix: the REPL ends at the end of its input instead of
 reading forever

---
 main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0d900ca..e22f882 100644
--- a/main.c
+++ b/main.c
@@ -143,9 +143,12 @@ static int main_REPL(int argc, char **argv) {
 	puts(VERSION_PRINTOUT);
 	while (true) {
 		printf("yasl> ");
-		while ((next = getchar()) != '\n') {
+		while ((next = getchar()) != '\n' && next != EOF) {
 			YASL_ByteBuffer_add_byte(buffer, next);
 		}
+		if (next == EOF) {
+			break;
+		}
 		YASL_ByteBuffer_add_byte(buffer, '\n');
 
 		YASL_resetstate_bb(S, (const char *)buffer->bytes, buffer->count);
-- 
2.43.0


From 5715dd46c7cccfc0bd09f00a6ffb09be800c9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 16/63] fix: functions with more than 127 locals address and
 capture all of them

---
 compiler/compiler.c | 4 ++--
 interpreter/VM.c    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..050db21 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -415,12 +415,12 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		const size_t start = compiler->buffer->count;
 		// TODO what's below is wrong. We need to get the right value for the upvals.
 		for (size_t i = 0; i < count; i++) {
-			compiler_add_byte(compiler, 0);
+			compiler_add_int(compiler, 0);
 		}
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
 			int64_t index = item->value.value.ival;
 			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
-			compiler->buffer->bytes[start + index] = value;
+			YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start + index * sizeof(yasl_int), value);
 		}
 	}
 
diff --git a/interpreter/VM.c b/interpreter/VM.c
index ea49dba..0ccf9e3 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -622,11 +622,11 @@ static void vm_CCONST(struct VM *const vm) {
 	closure->rc = NEW_RC();
 
 	for (size_t i = 0; i < num_upvalues; i++) {
-		unsigned char u = NCODE(vm);
-		if ((signed char)u >= 0) {
+		yasl_int u = vm_read_int(vm);
+		if (u >= 0) {
 			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
 		} else {
-			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~(signed char)u];
+			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~u];
 		}
 		closure->upvalues[i]->rc.refs++;
 	}
@@ -1377,7 +1377,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
-- 
2.43.0


From fa6e05c7ba8e7701ebfb22bf4984587726ed8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 17/63] fix: a table pattern whose key is missing skips the
 rest of itself

---
 interpreter/VM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 0ccf9e3..1e270db 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -992,7 +992,11 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)) + 1);
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 91ca0ed509aedb6352f3b2989e64da45f1a54890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 18/63] fix: slicing a string with an empty range gives the
 empty string

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 1e270db..ca932b5 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -720,6 +720,10 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
+	if (start >= end) {
+		start = end = 0;
+	}
+
 	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
 }
 
-- 
2.43.0


From f1ffba5dd2a363e55389fb963b49466a825a4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 19/63] fix: using or closing a closed file is a ValueError,
 and reading a directory is empty

---
 std/yasl-std-io.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..864ed9a 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -1,5 +1,6 @@
 #include "yasl-std-io.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -13,12 +14,21 @@
 
 static const char *const FILE_NAME = "io.file";
 
+// `close` leaves NULL behind in place of the file.
+static FILE *check_open(struct YASL_State *S, const char *name, FILE *f) {
+	if (f == NULL) {
+		vm_print_err_value((struct VM *)S, "%s was passed a closed file.", name);
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+	return f;
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	return check_open(S, name, (FILE *)YASL_popuserdata(S));
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +36,11 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
+	return check_open(S, name, (FILE *)YASL_peeknuserdata(S, pos));
 }
 
 static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	if (ptr) fclose((FILE *)ptr);
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -136,12 +146,12 @@ static int YASL_io_read(struct YASL_State *S) {
 	switch (mode_str[0]) {
 	case 'a': {
 		fseek(f, 0, SEEK_END);
-		size_t fsize = ftell(f);
+		long end = ftell(f);
+		size_t fsize = end < 0 || end == LONG_MAX ? 0 : (size_t) end;
 		fseek(f, 0, SEEK_SET);
 
 		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
+		fsize = fread(string, 1, fsize, f);
 		// TODO clean this up.
 		YASL_pushlstr(S, string, fsize);
 		free(string);
@@ -238,8 +248,9 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
-	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
+	FILE *f = YASLX_checknfile(S, FILE_PRE ".close", 0);
 
+	YASL_GETUSERDATA(vm_peek((struct VM *)S))->data = NULL;
 	int success = fclose(f);
 	YASL_pushbool(S, success == 0);
 	return 1;
-- 
2.43.0


From ff2c68bc8df6fa7ebff754a28be08c0c778fe2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 20/63] fix: trimming a string from both sides never takes the
 same characters twice

---
 data-structures/YASL_String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..0dc6707 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -514,7 +514,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -533,7 +533,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
-- 
2.43.0


From 4ac15f7135d88c519837b48eb7999acc128d4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 21/63] fix: slicing and iterating a slice of a static string
 start where the slice starts

---
 interpreter/VM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index ca932b5..f08451c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -724,7 +724,7 @@ static void vm_SLICE_str(struct VM *const vm){
 		start = end = 0;
 	}
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
@@ -923,7 +923,7 @@ static void vm_ITER_1(struct VM *const vm) {
 			vm_pushbool(vm, false);
 		} else {
 			size_t i = (size_t) frame->iter;
-			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
+			vm_pushstr(vm, YASL_String_new_substring(str->start + i, str->start + i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
 		}
-- 
2.43.0


From 448348bb1f53f2de4db9a482023073fdeac720b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 22/63] fix: counting or trimming the empty string is a
 ValueError instead of an endless loop

---
 interpreter/str_methods.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..5f10f88 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
@@ -226,6 +232,11 @@ int str_ltrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.ltrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.ltrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.ltrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S,
 		YASL_STR(YASL_String_ltrim(haystack, needle)));
 	return 1;
@@ -246,6 +257,11 @@ int str_rtrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.rtrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.rtrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.rtrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_rtrim(haystack, needle)));
 	return 1;
 }
@@ -264,6 +280,11 @@ int str_trim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.trim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.trim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.trim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_trim(haystack, needle)));
 	return 1;
 }
-- 
2.43.0


From ecf67f6eb1c03e675011f8f896bf27e17969e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 23/63] fix: the limit of str.replace counts replacements, not
 characters

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 0dc6707..d30692f 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From 6df0e36336c487505499e01bb115a59ad74f775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 24/63] fix: every variable a closure captured is closed when
 its function returns, and freed once

---
 interpreter/VM.c      | 47 +++++++++++++++++--------------------------
 interpreter/closure.c |  3 ++-
 2 files changed, 21 insertions(+), 29 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index f08451c..e859f95 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -77,6 +77,7 @@ void vm_close_all(struct VM *const vm);
 
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
+	vm->fp = -1;
 	vm_close_all(vm);
 
 	// Exit out of all loops (in case we're exiting with an error).
@@ -584,30 +585,17 @@ void vm_stringify_top(struct VM *const vm) {
 }
 
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	// The pending upvalues are sorted, the one highest up on the stack comes first.
+	struct Upvalue **link = &vm->pending;
+	while (*link && (*link)->location > location) {
+		link = &(*link)->next;
 	}
-
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*link && (*link)->location == location) {
+		return *link;
 	}
-	return (prev->next = upval_new(location));
+	struct Upvalue *upval = upval_new(location);
+	upval->next = *link;
+	return (*link = upval);
 }
 
 static void vm_CCONST(struct VM *const vm) {
@@ -1313,9 +1301,14 @@ static void vm_RET(struct VM *const vm) {
 static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
 	if (curr == NULL) return NULL;
 	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
+	struct Upvalue *next = curr->next;
+	if (curr->rc.refs == 0) {
+		free(curr);
+	} else {
+		inc_ref(curr->location);
+		upval_close(curr);
+	}
+	return (vm_close_all_helper(end, next));
 }
 
 void vm_close_all(struct VM *const vm) {
@@ -1634,12 +1627,10 @@ void vm_executenext(struct VM *const vm) {
 		vm_CALL(vm);
 		break;
 	case O_CRET:
+	case O_RET:      // also used when a variable of the function is captured further down
 		vm_close_all(vm);
 		vm_RET(vm);
 		break;
-	case O_RET:
-		vm_RET(vm);
-		break;
 	case O_GET:
 		vm_GET(vm);
 		break;
diff --git a/interpreter/closure.c b/interpreter/closure.c
index 39d7d5b..ccb510b 100644
--- a/interpreter/closure.c
+++ b/interpreter/closure.c
@@ -4,7 +4,8 @@ void closure_del_data(struct Closure *closure) {
 	for (size_t i = 0; i < closure->num_upvalues; i++) {
 		struct Upvalue *upval = closure->upvalues[i];
 		upval->rc.refs--;
-		if (upval->rc.refs == 0) {
+		// While it is open, the VM still knows about it and frees it when its variable goes away.
+		if (upval->rc.refs == 0 && upval->location == &upval->closed) {
 			dec_ref(upval->location);
 			free(upval);
 		}
-- 
2.43.0


From 220775a8e70e624e5625fe2c30a9106bd18e24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 25/63] fix: break and continue drop the variables declared
 inside of the loop

---
 compiler/compiler.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 050db21..f3404f0 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -29,8 +29,9 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 #define compiler_print_err_const(compiler, name, line) \
 	compiler_print_err_syntax((compiler), "Cannot assign to constant %s (line %" PRI_SIZET ").\n", name, line)
 
-#define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
-#define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define locals_checkpoint(compiler)   ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
+#define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -608,6 +609,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	compiler_add_byte(compiler, O_ITER_1);
 
 	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 
 	int64_t index_second;
 	enter_conditional_false(compiler, &index_second);
@@ -625,6 +627,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -689,6 +692,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 	visit(compiler, cond);
 
 	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 
 	int64_t index_second;
 	enter_conditional_false(compiler, &index_second);
@@ -701,6 +705,14 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+// Variables declared inside of the loop go out of scope when we leave its body early.
+static void pop_loop_locals(struct Compiler *const compiler) {
+	for (size_t i = scope_len(get_scope_in_use(compiler)); i > locals_checkpoint(compiler); i--) {
+		compiler_add_byte(compiler, O_POP);
+	}
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
@@ -709,6 +721,7 @@ static void visit_Break(struct Compiler *const compiler, const struct Node *cons
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
@@ -719,6 +732,7 @@ static void visit_Continue(struct Compiler *const compiler, const struct Node *c
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
-- 
2.43.0


From 2409bc8a3430320f66838dcdf3f434582d3ae758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 26/63] fix: break and continue in a function don't leave a
 loop around the function

---
 compiler/compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index f3404f0..e60fbff 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -379,6 +379,10 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 }
 
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
+	// Loops around this function aren't loops inside of it.
+	struct SizeBuffer outer_checkpoints = compiler->checkpoints;
+	compiler->checkpoints = NEW_SIZEBUFFER(4);
+
 	compiler->params = env_new(compiler->params);
 
 	enter_scope(compiler);
@@ -429,6 +433,9 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
 	compiler->params = tmp;
+
+	free(compiler->checkpoints.items);
+	compiler->checkpoints = outer_checkpoints;
 }
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 2de809427fbc5397893d1061a390ef254a52e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 27/63] fix: only the call in tail position of a multiple value
 context returns multiple values

---
 compiler/compiler.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index e60fbff..935d26e 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -438,22 +438,32 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	compiler->checkpoints = outer_checkpoints;
 }
 
-static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
-	int old_returns = compiler->expected_returns;
-	compiler->expected_returns = node->value.ival;
-	visit(compiler, node->children[0]);
+// Only a call gives us more than one value, its operands and anything else give us exactly one.
+static void visit_expanding(struct Compiler *const compiler, struct Node *const node, const int expected) {
+	const int old_returns = compiler->expected_returns;
+	compiler->expected_returns = will_var_expand(node) || node->nodetype == N_TRIOP ? expected : 1;
+	visit(compiler, node);
 	compiler->expected_returns = old_returns;
 }
 
+static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
+	visit_expanding(compiler, node->children[0], node->value.ival);
+}
+
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	const int expected = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
+	const int expected = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
 	visit(compiler, MethodCall_get_object(node));
@@ -461,11 +471,12 @@ static void visit_MethodCall(struct Compiler *const compiler, const struct Node
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
@@ -1178,19 +1189,20 @@ static void visit_TriOp(struct Compiler *const compiler, const struct Node *cons
 	struct Node *middle = TriOp_get_middle(node);
 	struct Node *right = TriOp_get_right(node);
 
-	visit(compiler, left);
+	const int expected = compiler->expected_returns;
+	visit_expanding(compiler, left, 1);
 
 	int64_t index_l;
 	enter_conditional_false(compiler, &index_l);
 
-	visit(compiler, middle);
+	visit_expanding(compiler, middle, expected);
 
 	size_t index_r;
 	enter_jump(compiler, &index_r);
 
 	exit_conditional_false(compiler, &index_l);
 
-	visit(compiler, right);
+	visit_expanding(compiler, right, expected);
 	exit_jump(compiler, &index_r);
 }
 
-- 
2.43.0


From 7c99ecf2abdb438e9011ddde9744a14f99bd87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 28/63] fix: a captured variable that goes out of scope keeps
 its value

---
 interpreter/VM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e859f95..94b83c1 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1641,6 +1641,8 @@ void vm_executenext(struct VM *const vm) {
 		vm_SET(vm);
 		break;
 	case O_POP:
+		// A variable that goes out of scope may have been captured.
+		vm->pending = vm_close_all_helper(vm->stack + vm->sp, vm->pending);
 		vm_pop(vm);
 		break;
 	case O_DEL_FP:
-- 
2.43.0


From e2d4fbf4cf8e50eceba731ba7962592fe1846daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 29/63] fix: peeking or popping a userdata or userptr of
 another type gives NULL, as documented

---
 yasl.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/yasl.c b/yasl.c
index f2ff110..90b255a 100644
--- a/yasl.c
+++ b/yasl.c
@@ -621,13 +621,22 @@ void *YASL_peekuserptr(struct YASL_State *S) {
 }
 
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
-	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
+	struct YASL_Object obj = vm_peek(&S->vm, S->vm.fp + 1 + n);
+	// lists and tables are userdata as well
+	if (obj_isuserdata(&obj) || obj_islist(&obj) || obj_istable(&obj)) {
+		return YASL_GETUSERDATA(obj)->data;
+	}
+	return NULL;
 }
 
 void *YASL_popuserdata(struct YASL_State *S) {
-	return YASL_GETUSERDATA(vm_pop(&S->vm))->data;
+	void *data = YASL_peekuserdata(S);
+	YASL_pop(S);
+	return data;
 }
 
 void *YASL_popuserptr(struct YASL_State *S) {
-	return YASL_GETUSERPTR(vm_pop(&S->vm));
+	void *userptr = YASL_peekuserptr(S);
+	YASL_pop(S);
+	return userptr;
 }
-- 
2.43.0


From 09a4535b0c6e1cc2beeef969bb5a45684b42e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 30/63] fix: YASL_functioncall runs YASL functions to
 completion and returns the number of their results

---
 yasl.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yasl.c b/yasl.c
index 90b255a..92e474d 100644
--- a/yasl.c
+++ b/yasl.c
@@ -436,14 +436,15 @@ int YASL_listpush(struct YASL_State *S) {
 	return YASL_SUCCESS;
 }
 
+void vm_CALL_now(struct VM *const vm);
+
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
-	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
-
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	const int base = vm->sp - n;
+	vm_INIT_CALL_offset(vm, base, -1);
+	vm_CALL_now(vm);
 
-	return old_sp - vm->sp - 1;
+	return vm->sp - base + 1;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From 0107761a7c1097ba0c79037b4aa2fb6acd26babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 31/63] fix: break and continue are allowed in the body of a
 loop whose condition is constantly false

---
 compiler/compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 935d26e..8194c39 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -681,7 +681,14 @@ static bool Node_isfalsey(const struct Node *const node) {
 }
 
 static void visit_While_false(struct Compiler *const compiler, const struct Node *const body, const struct Node *const post) {
+	// The body never runs, but `break` and `continue` are still allowed in it.
+	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 	validate(compiler, body);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 	if (post) validate(compiler, post);
 }
 
-- 
2.43.0


From 6bd7a5135aea827c95725f83cc4f58f8a9bbc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 32/63] fix: a guarded last arm of match does not run into the
 code for its failed guard (B03)

---
 compiler/compiler.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 8194c39..12f246b 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1032,7 +1032,9 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 
 	curr++;
 	size_t body_end = 0;
-	if (patterns->children_len > curr) {
+	// The body of the last arm must not run into the code that drops the bindings after its guard fails.
+	const bool drop_last = patterns->children_len == curr && guard && bindings;
+	if (patterns->children_len > curr || drop_last) {
 		enter_jump(compiler, &body_end);
 	}
 
@@ -1045,6 +1047,11 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	}
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start, compiler->buffer->count - start - 8);
 
+	if (drop_last) {
+		compiler_add_byte(compiler, O_POP);
+		exit_jump(compiler, &body_end);
+	}
+
 	if (patterns->children_len > curr) {
 		visit_Match_helper(compiler, patterns, guards, bodies, curr);
 		exit_jump(compiler, &body_end);
-- 
2.43.0


From cf4d4a77bd2d94c71ba10f1a817bf2efa653d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 33/63] fix: the value matched on is kept when a guard with
 bindings fails (B03)

---
 compiler/compiler.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 12f246b..3d08cc2 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1040,10 +1040,16 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
-		if (bindings) {
-			for (unsigned char i = bindings; i > 0; i--)
-			compiler_add_byte(compiler, O_POP);
+		unsigned char i = bindings;
+		if (bindings && patterns->children_len > curr &&
+		    (patterns->children[curr]->nodetype != N_PATANY || guards->children[curr])) {
+			// The value we match on is above the bindings, the next arm still needs it.
+			compiler_add_byte(compiler, O_LSTORE);
+			compiler_add_byte(compiler, (unsigned char) vars);
+			i--;
 		}
+		for (; i > 0; i--)
+			compiler_add_byte(compiler, O_POP);
 	}
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start, compiler->buffer->count - start - 8);
 
-- 
2.43.0


From a0affa685e0a4f5838ff4d89d6fd378addb72615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 34/63] fix: two parameters of one name are rejected (S01)

---
 compiler/compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 3d08cc2..d5516e6 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -388,6 +388,11 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	enter_scope(compiler);
 
 	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
+		if (contains_var_in_current_scope(compiler, Decl_get_name(child))) {
+			compiler_print_err_syntax(compiler, "Illegal redeclaration of %s (line %" PRI_SIZET ").\n", Decl_get_name(child), child->line);
+			handle_error(compiler);
+			continue;
+		}
 		decl_var(compiler, Decl_get_name(child), child->line);
 		if (child->nodetype == N_CONST) {
 			make_const(compiler, Decl_get_name(child));
-- 
2.43.0


From 14769a51a4b459cebf0ef529b00e74f627831484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 35/63] fix: a global whose initial value failed reads as undef
 (M10)

---
 interpreter/VM.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 94b83c1..63f22f8 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1136,9 +1136,9 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
-
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	struct YASL_Object global = YASL_Table_search(vm->globals, vm->constants[addr]);
+	// The global doesn't exist if an error occurred while evaluating its initial value.
+	vm_push(vm, global.type == Y_END ? YASL_UNDEF() : global);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
-- 
2.43.0


From 4ad51e31d36d0158ab632140fdd591ac9151d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 36/63] fix: an error leaves the stack, the frames and the
 loops as they were before the run (E03)

---
 interpreter/VM.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 63f22f8..4a86281 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1674,7 +1674,22 @@ void vm_executenext(struct VM *const vm) {
 }
 
 int vm_run(struct VM *const vm) {
+	const int sp = vm->sp;
+	const int fp = vm->fp;
+	const int frame_num = vm->frame_num;
+	const int loopframe_num = vm->loopframe_num;
+
 	if (setjmp(vm->buf)) {
+		if (vm->status != YASL_SUCCESS && vm->status != YASL_MODULE_SUCCESS) {
+			// Nothing of what was aborted may be in the way of what is run next.
+			vm->pending = vm_close_all_helper(vm->stack + sp + 1, vm->pending);
+			while (vm->loopframe_num > loopframe_num) {
+				dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+			}
+			vm->sp = sp;
+			vm->fp = fp;
+			vm->frame_num = frame_num;
+		}
 		return vm->status;
 	}
 
-- 
2.43.0


From a83e867a4a56e7e93a94cbc794f4751b7305e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 37/63] fix: bytecode is kept as long as functions defined by
 it can be called (E03)

---
 yasl.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/yasl.c b/yasl.c
index 92e474d..f9458f1 100644
--- a/yasl.c
+++ b/yasl.c
@@ -76,6 +76,17 @@ void YASL_loadprinterr(struct YASL_State *S) {
 	}
 }
 
+// Functions defined by what has been executed so far need their bytecode for as long as the state exists.
+static void keep_bytecode(struct YASL_State *S) {
+	struct VM *vm = &S->vm;
+	if (!vm->code) return;
+
+	vm->headers = (unsigned char **)realloc(vm->headers, (vm->headers_size + 1) * sizeof(unsigned char *));
+	vm->headers[vm->headers_size++] = vm->code;
+	vm->headers[S->compiler.num] = NULL;
+	vm->code = NULL;
+}
+
 int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	FILE *fp = fopen(filename, "r");
 	if (!fp) {
@@ -91,6 +102,7 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
+	keep_bytecode(S);
 
 	return YASL_SUCCESS;
 }
@@ -115,8 +127,7 @@ int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
+	keep_bytecode(S);
 
 	return YASL_SUCCESS;
 }
-- 
2.43.0


From b9b2c8a54095833cfb626701f563c5f269b1a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 38/63] fix: the constants of the previous run are released
 (M09)

---
 interpreter/VM.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4a86281..579a5b6 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1338,6 +1338,11 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
+
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
-- 
2.43.0


From c3a7947904f6ade8096b2cc88025ed417bac28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 39/63] fix: the line of an error is looked up in the bytecode
 it occurred in (L01)

---
 interpreter/VM.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 579a5b6..9071dfe 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -136,12 +136,23 @@ YASL_FORMAT_CHECK static void vm_print_err_wrapper(struct VM *vm, const char *co
 static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
+// Functions can come from other modules, or from what was run earlier.
+static const unsigned char *vm_getcurrcode(const struct VM *const vm) {
+	for (size_t i = 0; i < vm->headers_size; i++) {
+		const unsigned char *const code = vm->headers[i];
+		if (code && code <= vm->pc && vm->pc < code + ((int64_t *)code)[1]) return code;
+	}
+	return NULL;
+}
+
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	const unsigned char *const code = vm_getcurrcode(vm);
+	if (!code) return 0;
+	size_t start = ((int64_t *)code)[0];
+	size_t line_start = ((int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
-- 
2.43.0


From 6d1f081056171e8b78eb938d29318d945269da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 40/63] fix: bytecode of required modules is recorded, and
 released with the state (M09)

---
 std/yasl-std-require.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index a8e9948..6790fa5 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -83,6 +83,7 @@ int YASL_require(struct YASL_State *S) {
 		S->vm.headers[i] = Ss->vm.headers[i];
 		Ss->vm.headers[i] = NULL;
 	}
+	S->vm.headers_size = new_headers_size;
 
 	Ss->vm.globals = NULL;
 	Ss->vm.metatables = NULL;
-- 
2.43.0


From 5029c599983585e2ac8240b2c8e0160c42c81809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 41/63] fix: enclosing scopes are freed once (A04)

---
 compiler/env.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/compiler/env.c b/compiler/env.c
index b648ba0..cacc094 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -50,7 +50,6 @@ struct Scope *scope_new(struct Scope *const parent) {
 void scope_del(struct Scope *const scope) {
 	if (scope == NULL) return;
 	scope_del(scope->parent);
-	free(scope->parent);
 	scope_del_current_only(scope);
 }
 
-- 
2.43.0


From d479591cda58323b9c4128d1da5657efd8f90db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 42/63] fix: resetting a state starts counting lines anew (L01)

---
 yasl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yasl.c b/yasl.c
index f9458f1..7ab9508 100644
--- a/yasl.c
+++ b/yasl.c
@@ -102,6 +102,8 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
 	keep_bytecode(S);
 
 	return YASL_SUCCESS;
@@ -127,6 +129,8 @@ int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
 	keep_bytecode(S);
 
 	return YASL_SUCCESS;
-- 
2.43.0


From ac1cd3afec49476f40da51b12dff3c4b494a103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 43/63] fix: a program that doesn't parse leaves no scope
 behind (E03)

---
 compiler/compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index d5516e6..db72491 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -319,12 +319,12 @@ unsigned char *compile(struct Compiler *const compiler) {
 		node = parse(&compiler->parser);
 		if (compiler->parser.status) {
 			compiler->status |= compiler->parser.status;
-			return NULL;
+			break;
 		}
 		eattok(&compiler->parser, T_SEMI);
 		if (compiler->parser.status) {
 			compiler->status |= compiler->parser.status;
-			return NULL;
+			break;
 		}
 		visit(compiler, node);
 		YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
-- 
2.43.0


From 318b12d0af163e074fdc0c6fa93985590c741592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 44/63] fix: look up __call of the value that is called, and
 only call functions

A method that is a table with __call was looked up on the receiver, and a
__call that is not a function entered a frame that was never left.
---
 interpreter/VM.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 9071dfe..e5001b7 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1209,10 +1209,22 @@ static void vm_exitframe(struct VM *const vm) {
 	vm->frame_num--;
 }
 
+static bool vm_iscallable(struct VM *const vm, int offset) {
+	return vm_isfn(vm, offset) || vm_iscfn(vm, offset) || vm_isclosure(vm, offset);
+}
+
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns) {
-	if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
+	if (!vm_iscallable(vm, offset)) {
 		const char *name = (vm_peektypename(vm, offset));
+		vm_push(vm, vm_peek(vm, offset));
 		vm_lookup_method_throwing(vm, "__call", "%s is not callable.", name);
+		if (!vm_iscallable(vm, vm->sp)) {
+			vm_print_err_type(vm, "%s is not callable.", vm_peektypename(vm));
+			vm_throw_err(vm, YASL_TYPE_ERROR);
+		}
+		inc_ref(&vm_peek(vm));
+		dec_ref(&vm_peek(vm, offset));
+		vm_peek(vm, offset) = vm_pop(vm);
 	}
 
 	vm_enterframe_offset(vm, offset, expected_returns);
-- 
2.43.0


From 066aa5cb441c27361bcca90e0e27484ee020b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 45/63] fix: a __get written in YASL runs before the method it
 yields is called

---
 interpreter/VM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e5001b7..c8cc0f9 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -785,7 +785,11 @@ static int lookup(struct VM *vm, struct YASL_Object obj, struct YASL_Table *mt,
 	search = YASL_Table_search_string_int(mt, "__get", strlen("__get"));
 	if (search.type != Y_END) {
 		vm_push(vm, search);
-		vm_call_now_2(vm, obj, index);
+		// The value is needed right away, so a function has to run to its end.
+		vm_INIT_CALL(vm, 1);
+		vm_push(vm, obj);
+		vm_push(vm, index);
+		vm_CALL_now(vm);
 		return YASL_SUCCESS;
 	}
 	return YASL_VALUE_ERROR;
-- 
2.43.0


From ec2897364c2488cd6a679dddf496c22eb899e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 46/63] fix: missing fixed arguments of a variadic C function
 are undef

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index c8cc0f9..4ca8b61 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1289,6 +1289,9 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From 7aff90e8641161ee0a165cb4f4b02e0bcb41b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 47/63] fix: list.pop gives up the reference the list held
 (C03)

---
 interpreter/list_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..41e0d41 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -223,6 +223,7 @@ int list_pop(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 	vm_push((struct VM *) S, ls->items[--ls->count]);
+	dec_ref(&vm_peek((struct VM *) S));
 	return 1;
 }
 
-- 
2.43.0


From 528cf2c0e57be1cacd8e9b0b9896eabac38f87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 48/63] fix: the copy of a table has the methods of tables
 (C01)

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index a662132..b18be0f 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -235,6 +235,7 @@ int table_copy(struct YASL_State *S) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
 	}
 
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 	vm_push((struct VM *) S, YASL_TABLE(new_ht));
 	return 1;
 }
-- 
2.43.0


From 9dde4528f9969b360460bc8226a4bbe10fbd8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 49/63] fix: set.remove keeps its argument alive while it
 returns it (C01)

---
 std/yasl-std-collections.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 045bfbf..fb847e0 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -268,13 +268,12 @@ static int YASL_collections_set_add(struct YASL_State *S) {
 }
 
 static int YASL_collections_set_remove(struct YASL_State *S) {
-	struct YASL_Object val =  vm_pop((struct VM *)S);
+	struct YASL_Object val = vm_peek((struct VM *)S);
 
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".remove", 0);
 
 	YASL_Set_rm(set, val);
 
-	vm_push((struct VM *)S, val);
 	return 1;
 }
 
-- 
2.43.0


From 6999e444847abee84654d731e71fa4c7a0b9b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 50/63] fix: float keys are equal if they are hashed equally
 (C02)

---
 data-structures/YASL_Table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 2232730..06cb406 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -101,7 +101,10 @@ static void table_resize_down(struct YASL_Table *const table) {
 }
 
 bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b) {
-	return a->type == b->type && isequal(a, b);
+	if (a->type != b->type) return false;
+	// floats are hashed by their bits, so they are the same key only if they have the same bits: NaN is, 0.0 and -0.0 aren't.
+	if (obj_isfloat(a)) return memcmp(&a->value.dval, &b->value.dval, sizeof(a->value.dval)) == 0;
+	return isequal(a, b);
 }
 
 size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Object key) {
-- 
2.43.0


From 695656c9a0f51c5008625918c46f51bef35e77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 51/63] fix: equal elements of a set are of the same type, as
 their hashes are (C01)

---
 data-structures/YASL_Set.c   | 7 ++++---
 data-structures/YASL_Table.h | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 1992c24..2e432ab 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -1,4 +1,5 @@
 #include "YASL_Set.h"
+#include "YASL_Table.h"
 
 #include "util/hash_function.h"
 #include "util/prime.h"
@@ -79,7 +80,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	size_t i = 1;
 	while (!obj_isundef(&curr_item)) {
 		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
+			if ((isequal_typed(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
@@ -98,7 +99,7 @@ bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
+		if ((isequal_typed(&item, &key))) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -118,7 +119,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
+			if ((isequal_typed(&item, &key))) {
 				dec_ref(&item);
 				set->items[index] = YASL_END();
 				set->count--;
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index 48ec2dc..f2cbd16 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -64,4 +64,7 @@ void rcht_del(struct RC_UserData *const hashtable);
 void rcht_del_data(void *const hashtable);
 void rcht_del_cstring_cfn(struct RC_UserData *const hashtable);
 
+// True if the objects are the same key: unlike isequal, an int is never the same as a float.
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
+
 #endif
-- 
2.43.0


From e545c1446e14c57c53e0f88ec0139efa743aa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 52/63] fix: the last part of a split string reaches to its end
 (C04)

---
 data-structures/YASL_String.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index d30692f..e8e09af 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -448,6 +448,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 			end++;
 		}
 	}
+	end = YASL_String_len(haystack);
 	struct YASL_Object to = YASL_STR(
 		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
 	YASL_List_append(data, to);
-- 
2.43.0


From b7c26d3930796abb1c869ab82a7317947ca47fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 53/63] fix: converting an empty string to a float does not
 read its first character (C04)

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e8e09af..747011e 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,7 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	if (length == 0 || !isdigit((int)chars[0])) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From de4bb8cec8cd5af7e4fd770ebd4299ca30e945fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 54/63] fix: repeating a string too often is an error, the size
 does not wrap around (C04)

---
 interpreter/str_methods.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index 5f10f88..b2695f6 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -298,6 +298,12 @@ int str_repeat(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 
+	const size_t len = YASL_String_len(string);
+	if (len > 0 && (uint64_t)num > SIZE_MAX / len) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a smaller int as arg 1.", "str.rep");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_rep_fast(string, num)));
 	return 1;
 }
-- 
2.43.0


From 49373033d5e6b7d82ea6244e766901d0f3df2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 55/63] fix: a statement that starts with a function literal
 drops its value like any other expression statement (S04)

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..956cf9a 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -255,7 +255,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
-		else return parse_expr(parser);
+		else return parse_assign_or_exprstmt(parser);
 	case T_RET:
 		return parse_return(parser);
 	case T_EXPORT:
-- 
2.43.0


From 08986542774a8d4bea2fabe043be6b71459c0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 56/63] fix: a multiple assignment that starts with an element
 counts it among its targets (S04)

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 956cf9a..5e3cdbd 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -196,7 +196,7 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 		struct Node *set = new_Set(parser, Get_get_collection(expr), Get_get_value(expr), NULL, line);
 		body_append(parser, &buffer, set);
 
-		return parse_decl_helper(parser, buffer, 0);
+		return parse_decl_helper(parser, buffer, 1);
 
 	}
 
-- 
2.43.0


From b913b6f83c7ee68c354581ff2014f15b179ad14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 57/63] fix: a declaration or multiple assignment takes no more
 values than it has targets (S04)

---
 compiler/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 5e3cdbd..dcb420d 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -433,7 +433,8 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	int j = 0;
 	do {
 		body_append(parser, &rvals, parse_expr(parser));
-	} while (j++ < expected && matcheattok(parser, T_COMMA));
+		j++;
+	} while (j < expected && matcheattok(parser, T_COMMA));
 
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
-- 
2.43.0


From dcce6502177267e60958cfc8176b88ccb7b8ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 58/63] fix: the step of a for loop drops the value of a call
 once, not twice (S04)

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index dcb420d..6022b40 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -518,7 +518,7 @@ static struct Node *parse_for(struct Parser *const parser) {
 		struct Node *body = parse_body(parser);
 		struct Node *outer_body = new_Body(parser, line);
 		body_append(parser, &outer_body, iter);
-		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), new_ExprStmt(parser, post, line), line));
+		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), post, line));
 		struct Node *block = new_Block(parser, outer_body, line);
 		return block;
 	}
-- 
2.43.0


From 7fdab2c7edaed885021ca82b6e51a5115faa101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 59/63] fix: a placeholder may start with an interpolated
 string (S04)

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 6022b40..eb9219c 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1104,8 +1104,8 @@ static struct Node *parse_string(struct Parser *const parser) {
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
 		eattok(parser, T_STR);
-		eattok(parser, T_LBRC);
 		parser->lex.mode = L_NORMAL;
+		eattok(parser, T_LBRC);
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-- 
2.43.0


From db124f0c08e8196ef7d032fe6ed568ebdffd12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 60/63] fix: a placeholder ends at its brace, not at a token in
 front of it (S04)

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index eb9219c..79fd2b2 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1109,7 +1109,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-		if (parser->lex.c == '}') {
+		if (curtok(parser) == T_RBRC) {
 			parser->lex.c = lxgetc(parser->lex.file);
 		} else {
 			parser_print_err_syntax(parser, "Expected } in line %" PRI_SIZET ".\n", parserline(parser));
-- 
2.43.0


From 989ebdab7c947e77687fe9124fe72506fde36ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:25 +0000
Subject: [PATCH 61/63] fix: looking ahead over the end of a line does not
 count the line twice (S04)

---
 compiler/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/parser.c b/compiler/parser.c
index 79fd2b2..eca991f 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -208,11 +208,13 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
  */
 static bool isfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	size_t line = parserline(parser);
 	eattok(parser, T_FN);
 	free(parser->lex.value);
 	parser->lex.value = NULL;
 	bool result = TOKEN_MATCHES(parser, T_ID);
 	lxseek(parser->lex.file, curr, SEEK_SET);
+	parser->lex.line = line;
 	parser->lex.type = T_FN;
 	return result;
 }
@@ -222,10 +224,12 @@ static bool isfndecl(struct Parser *const parser) {
  */
 static bool isconstfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	size_t line = parserline(parser);
 	eattok(parser, T_CONST);
 	free(parser->lex.value);
 	bool result = TOKEN_MATCHES(parser, T_FN);
 	lxseek(parser->lex.file, curr, SEEK_SET);
+	parser->lex.line = line;
 	parser->lex.type = T_CONST;
 	return result;
 }
@@ -235,11 +239,13 @@ static bool isconstfndecl(struct Parser *const parser) {
  */
 static bool ismultiassign(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	size_t line = parserline(parser);
 	char *name = parser->lex.value;
 	parser->lex.value = NULL;
 	eattok(parser, T_ID);
 	bool result = TOKEN_MATCHES(parser, T_COMMA);
 	lxseek(parser->lex.file, curr, SEEK_SET);
+	parser->lex.line = line;
 	free(parser->lex.value);
 	parser->lex.type = T_ID;
 	parser->lex.value = name;
-- 
2.43.0


From 94591e99cb6a887216ab80cd94eadcc1cafa9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:15 +0000
Subject: [PATCH 62/63] fix: a hexadecimal escape takes two hexadecimal digits,
 no sign or blank (L02)

---
 compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..467a7d7 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -344,7 +344,7 @@ static bool handle_escapes(struct Lexer *const lex, char delim) {
 		buffer[1] = lex_getchar(lex);
 		buffer[2] = '\0';
 		tmp = (char) strtol(buffer, &end, 16);
-		if (end != buffer + 2) {
+		if (end != buffer + 2 || !isxdigit((unsigned char)buffer[0])) {
 			lex_print_err_syntax(lex, "Invalid hex string escape in line %" PRI_SIZET ".\n", lex->line);
 			goto error;
 		}
-- 
2.43.0


From e3d2a372e8f286b9ff5e73203fd988651c766e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:15 +0000
Subject: [PATCH 63/63] fix: the exponent of a float literal needs a digit
 (L02)

---
 compiler/lexer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 467a7d7..8613c35 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -236,6 +236,15 @@ static bool lex_eatfloat(struct Lexer *const lex) {
 			lex_getchar(lex);
 			lex_val_append(lex, 'e');
 			while (lex->c == NUM_SEPERATOR) lex_getchar(lex);
+			if (lex->c == '+' || lex->c == '-') {
+				lex_val_append(lex, lex->c);
+				lex_getchar(lex);
+			}
+			if (lxeof(lex->file) || !isddigit(lex->c)) {
+				lex_print_err_syntax(lex, "Invalid float literal in line %" PRI_SIZET ".\n", lex->line);
+				lex_error(lex);
+				return true;
+			}
 			lex_eatnumber_fill(lex, &isddigit);
 		}
 
-- 
2.43.0

