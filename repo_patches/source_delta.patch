From 6913228f8b2105104f1c93dd9a98583bf51d21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 01/43] fix: report allocation failure in hash tree root
 insertion and block tree

---
 source/core/block_tree.c | 1 +
 source/core/hashtree.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/core/block_tree.c b/source/core/block_tree.c
index 93f46ef..0ccbad5 100644
--- a/source/core/block_tree.c
+++ b/source/core/block_tree.c
@@ -107,6 +107,7 @@ kefir_result_t kefir_block_tree_block(struct kefir_mem *mem, struct kefir_block_
     kefir_result_t res = kefir_block_tree_get_block(tree, block_id, block_ptr);
     if (res == KEFIR_NOT_FOUND) {
         void *block = KEFIR_MALLOC(mem, tree->block_size);
+        REQUIRE(block != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate block tree block"));
 
         if (tree->on_block_init.callback != NULL) {
             res = tree->on_block_init.callback(mem, tree, block_id, block, tree->on_block_init.payload);
diff --git a/source/core/hashtree.c b/source/core/hashtree.c
index 67512ea..af2f983 100644
--- a/source/core/hashtree.c
+++ b/source/core/hashtree.c
@@ -143,6 +143,7 @@ kefir_result_t kefir_hashtree_insert(struct kefir_mem *mem, struct kefir_hashtre
     kefir_hashtree_hash_t hash = tree->ops->hash(key, tree->ops->data);
     if (tree->root == NULL) {
         tree->root = node_alloc(mem, hash, NULL, key, value);
+        REQUIRE(tree->root != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate hash tree node"));
         return KEFIR_OK;
     } else {
         return node_insert(mem, tree, tree->root, hash, key, value, NULL, false);
-- 
2.43.0


From 72f029eff4bd146bdb5568131ba17aab6b0ff497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:15 +0000
Subject: [PATCH 02/43] fix: propagate IR type tree construction and function
 symbol failures

---
 source/ir/module.c    | 1 +
 source/ir/type_tree.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/ir/module.c b/source/ir/module.c
index be53c7b..b70dd72 100644
--- a/source/ir/module.c
+++ b/source/ir/module.c
@@ -235,6 +235,7 @@ struct kefir_ir_function_decl *kefir_ir_module_new_function_declaration(struct k
     }
 
     const char *symbol = kefir_ir_module_symbol(mem, module, name, NULL);
+    REQUIRE(symbol != NULL || name == NULL, NULL);
     kefir_id_t func_decl_id = module->next_function_decl_id;
     struct kefir_ir_function_decl *decl = KEFIR_MALLOC(mem, sizeof(struct kefir_ir_function_decl));
     REQUIRE(decl != NULL, NULL);
diff --git a/source/ir/type_tree.c b/source/ir/type_tree.c
index f8cb074..5aba136 100644
--- a/source/ir/type_tree.c
+++ b/source/ir/type_tree.c
@@ -139,7 +139,7 @@ kefir_result_t kefir_ir_type_tree_init(struct kefir_mem *mem, const struct kefir
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_hashtree_free(mem, &tree->index);
         kefir_list_free(mem, &tree->roots);
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
-- 
2.43.0


From b66a6e13259adf7eedacf0e34f3952e773242d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:15 +0000
Subject: [PATCH 03/43] fix: propagate AST builder failures and check parser
 allocations

---
 source/parser/builder.c                     | 8 ++++----
 source/parser/rules/declaration_specifier.c | 4 +++-
 source/parser/rules/declarator.c            | 2 ++
 source/parser/rules/initializer_list.c      | 2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/parser/builder.c b/source/parser/builder.c
index 76c32e2..c05d6e0 100644
--- a/source/parser/builder.c
+++ b/source/parser/builder.c
@@ -97,7 +97,7 @@ kefir_result_t kefir_parser_ast_builder_scan(struct kefir_mem *mem, struct kefir
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, node);
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, node);
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
@@ -156,7 +156,7 @@ kefir_result_t kefir_parser_ast_builder_array_subscript(struct kefir_mem *mem,
     kefir_result_t res = kefir_parser_ast_builder_pop(mem, builder, &array);
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, subscript);
-        return KEFIR_OK;
+        return res;
     });
 
     struct kefir_ast_array_subscript *result = kefir_ast_new_array_subscript(mem, array, subscript);
@@ -741,7 +741,7 @@ kefir_result_t kefir_parser_ast_builder_compound_statement(struct kefir_mem *mem
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(stmt));
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(stmt));
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
@@ -1300,7 +1300,7 @@ kefir_result_t kefir_parser_ast_builder_statement_expression(struct kefir_mem *m
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(expr));
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(expr));
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
diff --git a/source/parser/rules/declaration_specifier.c b/source/parser/rules/declaration_specifier.c
index 04edf9b..021d672 100644
--- a/source/parser/rules/declaration_specifier.c
+++ b/source/parser/rules/declaration_specifier.c
@@ -290,7 +290,9 @@ static kefir_result_t scan_enum_field_declaration(struct kefir_mem *mem, struct
 
     res = kefir_ast_enum_specifier_append(mem, specifier, parser->symbols, identifier, value);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_AST_NODE_FREE(mem, value);
+        if (value != NULL) {
+            KEFIR_AST_NODE_FREE(mem, value);
+        }
         return res;
     });
 
diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index 9168937..72a108e 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -387,6 +387,8 @@ static kefir_result_t scan_function(struct kefir_mem *mem, struct kefir_parser *
                                     struct kefir_ast_declarator **declarator_ptr) {
     struct kefir_source_location source_location = *PARSER_TOKEN_LOCATION(parser, 0);
     struct kefir_ast_declarator *declarator = kefir_ast_declarator_function(mem, *declarator_ptr);
+    REQUIRE(declarator != NULL,
+            KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST function declarator"));
     kefir_result_t res = scan_function_impl(mem, parser, abstract, declarator);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_free(mem, declarator);
diff --git a/source/parser/rules/initializer_list.c b/source/parser/rules/initializer_list.c
index 803742c..a5207ce 100644
--- a/source/parser/rules/initializer_list.c
+++ b/source/parser/rules/initializer_list.c
@@ -55,7 +55,7 @@ static kefir_result_t scan_initializer_list(struct kefir_mem *mem, struct kefir_
     REQUIRE(PARSER_TOKEN_IS_LEFT_BRACE(parser, 0), KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match initializer list"));
     REQUIRE_OK(PARSER_SHIFT(parser));
     *initializer = kefir_ast_new_list_initializer(mem);
-    REQUIRE(initializer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocae AST initializer list"));
+    REQUIRE(*initializer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocae AST initializer list"));
     (*initializer)->source_location = *PARSER_TOKEN_LOCATION(parser, 0);
 
     kefir_bool_t scan_initializers = !PARSER_TOKEN_IS_RIGHT_BRACE(parser, 0);
-- 
2.43.0


From 306b8854201aebc5c0ebfe46c3b78304419f046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:15 +0000
Subject: [PATCH 04/43] fix: AST clones copy block items, allocate full
 associations and report failures

---
 source/ast/declarator.c                 | 45 +++++++++++++++++++------
 source/ast/declarator_specifier.c       | 25 +++++++++++---
 source/ast/nodes/compound_statement.c   |  4 +--
 source/ast/nodes/generic_selection.c    | 10 +++---
 source/ast/nodes/statement_expression.c |  4 +--
 source/ast/nodes/struct_member.c        |  4 +--
 source/ast/nodes/translation_unit.c     |  2 +-
 7 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/source/ast/declarator.c b/source/ast/declarator.c
index c2308d8..46d4064 100644
--- a/source/ast/declarator.c
+++ b/source/ast/declarator.c
@@ -161,9 +161,13 @@ struct kefir_ast_declarator *kefir_ast_declarator_clone(struct kefir_mem *mem,
             break;
 
         case KEFIR_AST_DECLARATOR_POINTER: {
-            struct kefir_ast_declarator *decl =
-                kefir_ast_declarator_pointer(mem, kefir_ast_declarator_clone(mem, declarator->pointer.declarator));
-            REQUIRE(decl != NULL, NULL);
+            struct kefir_ast_declarator *direct = kefir_ast_declarator_clone(mem, declarator->pointer.declarator);
+            REQUIRE(direct != NULL, NULL);
+            struct kefir_ast_declarator *decl = kefir_ast_declarator_pointer(mem, direct);
+            REQUIRE_ELSE(decl != NULL, {
+                kefir_ast_declarator_free(mem, direct);
+                return NULL;
+            });
 
             kefir_result_t res = kefir_ast_type_qualifier_list_clone(mem, &decl->pointer.type_qualifiers,
                                                                      &declarator->pointer.type_qualifiers);
@@ -175,10 +179,27 @@ struct kefir_ast_declarator *kefir_ast_declarator_clone(struct kefir_mem *mem,
         } break;
 
         case KEFIR_AST_DECLARATOR_ARRAY: {
-            struct kefir_ast_declarator *decl = kefir_ast_declarator_array(
-                mem, declarator->array.type, KEFIR_AST_NODE_CLONE(mem, declarator->array.length),
-                kefir_ast_declarator_clone(mem, declarator->array.declarator));
-            REQUIRE(decl != NULL, NULL);
+            struct kefir_ast_node_base *length = NULL;
+            if (declarator->array.length != NULL) {
+                length = KEFIR_AST_NODE_CLONE(mem, declarator->array.length);
+                REQUIRE(length != NULL, NULL);
+            }
+            struct kefir_ast_declarator *direct = kefir_ast_declarator_clone(mem, declarator->array.declarator);
+            REQUIRE_ELSE(direct != NULL, {
+                if (length != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, length);
+                }
+                return NULL;
+            });
+            struct kefir_ast_declarator *decl =
+                kefir_ast_declarator_array(mem, declarator->array.type, length, direct);
+            REQUIRE_ELSE(decl != NULL, {
+                kefir_ast_declarator_free(mem, direct);
+                if (length != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, length);
+                }
+                return NULL;
+            });
 
             decl->array.static_array = declarator->array.static_array;
             kefir_result_t res = kefir_ast_type_qualifier_list_clone(mem, &decl->array.type_qualifiers,
@@ -191,9 +212,13 @@ struct kefir_ast_declarator *kefir_ast_declarator_clone(struct kefir_mem *mem,
         } break;
 
         case KEFIR_AST_DECLARATOR_FUNCTION: {
-            struct kefir_ast_declarator *decl =
-                kefir_ast_declarator_function(mem, kefir_ast_declarator_clone(mem, declarator->function.declarator));
-            REQUIRE(decl != NULL, NULL);
+            struct kefir_ast_declarator *direct = kefir_ast_declarator_clone(mem, declarator->function.declarator);
+            REQUIRE(direct != NULL, NULL);
+            struct kefir_ast_declarator *decl = kefir_ast_declarator_function(mem, direct);
+            REQUIRE_ELSE(decl != NULL, {
+                kefir_ast_declarator_free(mem, direct);
+                return NULL;
+            });
 
             decl->function.ellipsis = declarator->function.ellipsis;
             for (const struct kefir_list_entry *iter = kefir_list_head(&declarator->function.parameters); iter != NULL;
diff --git a/source/ast/declarator_specifier.c b/source/ast/declarator_specifier.c
index 9dd88ee..ac5e878 100644
--- a/source/ast/declarator_specifier.c
+++ b/source/ast/declarator_specifier.c
@@ -233,6 +233,10 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                 });
             } else {
                 entry_clone = kefir_ast_structure_declaration_entry_alloc(mem);
+                REQUIRE_ELSE(entry_clone != NULL, {
+                    kefir_ast_structure_specifier_free(mem, clone);
+                    return NULL;
+                });
 
                 struct kefir_ast_declarator_specifier *entry_specifier = NULL;
                 for (struct kefir_list_entry *iter =
@@ -260,9 +264,16 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                     ASSIGN_DECL_CAST(struct kefir_ast_structure_entry_declarator *, entry_declarator, iter->value);
                     struct kefir_ast_declarator *declarator_clone =
                         kefir_ast_declarator_clone(mem, entry_declarator->declarator);
+                    REQUIRE_ELSE(entry_declarator->declarator == NULL || declarator_clone != NULL, {
+                        kefir_ast_structure_declaration_entry_free(mem, entry_clone);
+                        kefir_ast_structure_specifier_free(mem, clone);
+                        return NULL;
+                    });
                     struct kefir_ast_node_base *bitwidth_clone = KEFIR_AST_NODE_CLONE(mem, entry_declarator->bitwidth);
                     REQUIRE_ELSE(entry_declarator->bitwidth == NULL || bitwidth_clone != NULL, {
-                        kefir_ast_declarator_free(mem, declarator_clone);
+                        if (declarator_clone != NULL) {
+                            kefir_ast_declarator_free(mem, declarator_clone);
+                        }
                         kefir_ast_structure_declaration_entry_free(mem, entry_clone);
                         kefir_ast_structure_specifier_free(mem, clone);
                         return NULL;
@@ -270,8 +281,12 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                     res = kefir_ast_structure_declaration_entry_append(mem, entry_clone, declarator_clone,
                                                                        bitwidth_clone);
                     REQUIRE_ELSE(res == KEFIR_OK, {
-                        kefir_ast_declarator_free(mem, declarator_clone);
-                        KEFIR_AST_NODE_FREE(mem, bitwidth_clone);
+                        if (declarator_clone != NULL) {
+                            kefir_ast_declarator_free(mem, declarator_clone);
+                        }
+                        if (bitwidth_clone != NULL) {
+                            KEFIR_AST_NODE_FREE(mem, bitwidth_clone);
+                        }
                         kefir_ast_structure_declaration_entry_free(mem, entry_clone);
                         kefir_ast_structure_specifier_free(mem, clone);
                         return NULL;
@@ -484,7 +499,9 @@ struct kefir_ast_enum_specifier *kefir_ast_enum_specifier_clone(struct kefir_mem
 
             kefir_result_t res = kefir_ast_enum_specifier_append(mem, clone, NULL, entry->constant, value);
             REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_AST_NODE_FREE(mem, value);
+                if (value != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, value);
+                }
                 kefir_ast_enum_specifier_free(mem, clone);
                 return NULL;
             });
diff --git a/source/ast/nodes/compound_statement.c b/source/ast/nodes/compound_statement.c
index cda3feb..a4364ba 100644
--- a/source/ast/nodes/compound_statement.c
+++ b/source/ast/nodes/compound_statement.c
@@ -81,7 +81,7 @@ struct kefir_ast_node_base *ast_compound_statement_clone(struct kefir_mem *mem,
         return NULL;
     });
 
-    for (const struct kefir_list_entry *iter = kefir_list_head(&clone->block_items); iter != NULL;
+    for (const struct kefir_list_entry *iter = kefir_list_head(&node->block_items); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_node_base *, item, iter->value);
         struct kefir_ast_node_base *item_clone = KEFIR_AST_NODE_CLONE(mem, item);
@@ -92,7 +92,7 @@ struct kefir_ast_node_base *ast_compound_statement_clone(struct kefir_mem *mem,
         });
 
         res = kefir_list_insert_after(mem, &clone->block_items, kefir_list_tail(&clone->block_items), item_clone);
-        REQUIRE_ELSE(item_clone != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
             KEFIR_AST_NODE_FREE(mem, item_clone);
             kefir_list_free(mem, &clone->block_items);
             KEFIR_FREE(mem, clone);
diff --git a/source/ast/nodes/generic_selection.c b/source/ast/nodes/generic_selection.c
index 4d48aa8..076e16a 100644
--- a/source/ast/nodes/generic_selection.c
+++ b/source/ast/nodes/generic_selection.c
@@ -95,8 +95,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
         struct kefir_ast_generic_selection_assoc *clone_assoc =
-            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc *));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc));
+        REQUIRE_ELSE(clone_assoc != NULL, {
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -104,7 +104,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
         });
 
         struct kefir_ast_node_base *clone_type_name = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(assoc->type_name));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+        REQUIRE_ELSE(clone_type_name != NULL, {
+            KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -132,7 +133,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
             return NULL;
         });
         res = kefir_list_insert_after(mem, &clone->associations, kefir_list_tail(&clone->associations), clone_assoc);
-        REQUIRE_ELSE(clone_assoc->expr != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, clone_assoc->expr);
             KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(clone_assoc->type_name));
             KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
diff --git a/source/ast/nodes/statement_expression.c b/source/ast/nodes/statement_expression.c
index 3f0b728..5045d4d 100644
--- a/source/ast/nodes/statement_expression.c
+++ b/source/ast/nodes/statement_expression.c
@@ -85,7 +85,7 @@ struct kefir_ast_node_base *ast_statement_expression_clone(struct kefir_mem *mem
         return NULL;
     });
 
-    for (const struct kefir_list_entry *iter = kefir_list_head(&clone->block_items); iter != NULL;
+    for (const struct kefir_list_entry *iter = kefir_list_head(&node->block_items); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_node_base *, item, iter->value);
         struct kefir_ast_node_base *item_clone = KEFIR_AST_NODE_CLONE(mem, item);
@@ -96,7 +96,7 @@ struct kefir_ast_node_base *ast_statement_expression_clone(struct kefir_mem *mem
         });
 
         res = kefir_list_insert_after(mem, &clone->block_items, kefir_list_tail(&clone->block_items), item_clone);
-        REQUIRE_ELSE(item_clone != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
             KEFIR_AST_NODE_FREE(mem, item_clone);
             kefir_list_free(mem, &clone->block_items);
             KEFIR_FREE(mem, clone);
diff --git a/source/ast/nodes/struct_member.c b/source/ast/nodes/struct_member.c
index 0568c05..0ce33a3 100644
--- a/source/ast/nodes/struct_member.c
+++ b/source/ast/nodes/struct_member.c
@@ -77,7 +77,7 @@ struct kefir_ast_struct_member *kefir_ast_new_struct_member(struct kefir_mem *me
     REQUIRE(structure != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     const char *member_copy = kefir_symbol_table_insert(mem, symbols, member, NULL);
-    REQUIRE(member != NULL, NULL);
+    REQUIRE(member_copy != NULL, NULL);
     struct kefir_ast_struct_member *struct_member = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_member));
     REQUIRE(struct_member != NULL, NULL);
     struct_member->base.klass = &AST_STRUCT_MEMBER_CLASS;
@@ -106,7 +106,7 @@ struct kefir_ast_struct_member *kefir_ast_new_struct_indirect_member(struct kefi
     REQUIRE(structure != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     const char *member_copy = kefir_symbol_table_insert(mem, symbols, member, NULL);
-    REQUIRE(member != NULL, NULL);
+    REQUIRE(member_copy != NULL, NULL);
     struct kefir_ast_struct_member *struct_member = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_member));
     REQUIRE(struct_member != NULL, NULL);
     struct_member->base.klass = &AST_STRUCT_INDIRECT_MEMBER_CLASS;
diff --git a/source/ast/nodes/translation_unit.c b/source/ast/nodes/translation_unit.c
index b8dbb2a..e12905a 100644
--- a/source/ast/nodes/translation_unit.c
+++ b/source/ast/nodes/translation_unit.c
@@ -89,7 +89,7 @@ struct kefir_ast_node_base *ast_translation_unit_clone(struct kefir_mem *mem, st
 
         res = kefir_list_insert_after(mem, &clone->external_definitions, kefir_list_tail(&clone->external_definitions),
                                       clone_ext_def);
-        REQUIRE_ELSE(clone_ext_def != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
             KEFIR_AST_NODE_FREE(mem, clone_ext_def);
             kefir_list_free(mem, &clone->external_definitions);
             KEFIR_FREE(mem, clone);
-- 
2.43.0


From 16118c5af9f1c7ba27c921244a9f6645191c4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:15 +0000
Subject: [PATCH 05/43] fix: check allocation of scoped identifiers

---
 source/ast/context_impl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/ast/context_impl.c b/source/ast/context_impl.c
index 75c91dc..05f8f9f 100644
--- a/source/ast/context_impl.c
+++ b/source/ast/context_impl.c
@@ -63,6 +63,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_object_ide
     struct kefir_ast_alignment *alignment, kefir_ast_scoped_identifier_linkage_t linkage, kefir_bool_t external,
     struct kefir_ast_initializer *initializer) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_OBJECT;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -89,6 +90,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_object_ide
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_constant(
     struct kefir_mem *mem, struct kefir_ast_constant_expression *value, const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_ENUM_CONSTANT;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -103,6 +105,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_constant(
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_tag(struct kefir_mem *mem,
                                                                                const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_TYPE_TAG;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -116,6 +119,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_tag(s
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_definition(
     struct kefir_mem *mem, const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_TYPE_DEFINITION;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -179,6 +183,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_function_i
     struct kefir_mem *mem, const struct kefir_ast_type *type, kefir_ast_function_specifier_t specifier,
     kefir_ast_scoped_identifier_storage_t storage, kefir_bool_t external, kefir_bool_t defined) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -198,6 +203,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_function_i
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_label(
     struct kefir_mem *mem, struct kefir_ast_flow_control_structure *parent) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_LABEL;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
-- 
2.43.0


From 18917761cbc6a462c87ff1941415e85932c844fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 06/43] fix: report lexer cursor failures while scanning digit
 sequences

---
 source/lexer/tokens/characters.c        |  4 ++--
 source/lexer/tokens/floating_constant.c | 22 ++++++++++++----------
 source/lexer/tokens/integer_constant.c  | 12 ++++++------
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/source/lexer/tokens/characters.c b/source/lexer/tokens/characters.c
index ed17fb2..e0a2c80 100644
--- a/source/lexer/tokens/characters.c
+++ b/source/lexer/tokens/characters.c
@@ -141,10 +141,10 @@ static kefir_result_t next_hexadecimal_escape_sequence(struct kefir_lexer_source
     REQUIRE(kefir_ishexdigit32(chr),
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location, "Expected hexadecimal digit"));
     *target = 0;
-    for (; kefir_ishexdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_ishexdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         *target <<= 4;
         *target += kefir_hex32todec(chr);
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
 }
diff --git a/source/lexer/tokens/floating_constant.c b/source/lexer/tokens/floating_constant.c
index 7e0630e..8ce39d5 100644
--- a/source/lexer/tokens/floating_constant.c
+++ b/source/lexer/tokens/floating_constant.c
@@ -31,10 +31,10 @@ static kefir_result_t match_fractional_part(struct kefir_mem *mem, struct kefir_
     kefir_size_t fraction_digits = 0;
 
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    for (; kefir_isdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_isdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
         integer_digits++;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
 
     if (chr == U'.') {
@@ -46,10 +46,10 @@ static kefir_result_t match_fractional_part(struct kefir_mem *mem, struct kefir_
         return KEFIR_OK;
     }
     chr = kefir_lexer_source_cursor_at(cursor, 0);
-    for (; kefir_isdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_isdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
         fraction_digits++;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     REQUIRE(integer_digits > 0 || fraction_digits > 0,
             KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match floating constant"));
@@ -71,9 +71,10 @@ static kefir_result_t match_exponent(struct kefir_mem *mem, struct kefir_lexer_s
     struct kefir_source_location exponent_location = cursor->location;
     kefir_size_t exponent_digits = 0;
     for (chr = kefir_lexer_source_cursor_at(cursor, 0); kefir_isdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+         chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
         exponent_digits++;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     REQUIRE(exponent_digits > 0, KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &exponent_location,
                                                         "Expected one or more floating point exponent digits"));
@@ -154,10 +155,10 @@ static kefir_result_t match_hexadecimal_fractional_part(struct kefir_mem *mem, s
     kefir_size_t integer_digits = 0;
     kefir_size_t fraction_digits = 0;
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    for (; kefir_ishexdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_ishexdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
         integer_digits++;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
 
     if (chr == U'.') {
@@ -169,10 +170,10 @@ static kefir_result_t match_hexadecimal_fractional_part(struct kefir_mem *mem, s
         return KEFIR_OK;
     }
     chr = kefir_lexer_source_cursor_at(cursor, 0);
-    for (; kefir_ishexdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_ishexdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
         fraction_digits++;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     REQUIRE(integer_digits > 0 || fraction_digits > 0,
             KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match hexadecimal floating constant"));
@@ -194,9 +195,10 @@ static kefir_result_t match_hexadecimal_exponent(struct kefir_mem *mem, struct k
     struct kefir_source_location exponent_location = cursor->location;
     kefir_size_t exponent_digits = 0;
     for (chr = kefir_lexer_source_cursor_at(cursor, 0); kefir_isdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+         chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
         exponent_digits++;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     REQUIRE(exponent_digits > 0, KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &exponent_location,
                                                         "Expected one or more floating point exponent digits"));
diff --git a/source/lexer/tokens/integer_constant.c b/source/lexer/tokens/integer_constant.c
index 9054b9e..be67a6c 100644
--- a/source/lexer/tokens/integer_constant.c
+++ b/source/lexer/tokens/integer_constant.c
@@ -161,10 +161,10 @@ static kefir_result_t next_decimal_constant(struct kefir_lexer_source_cursor *cu
             KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match decimal integer constant"));
 
     *value = 0;
-    for (; kefir_isdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_isdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         *value *= 10;
         *value += chr - U'0';
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
 }
@@ -178,10 +178,10 @@ static kefir_result_t next_hexadecimal_constant(struct kefir_lexer_source_cursor
     REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
 
     *value = 0;
-    for (; kefir_ishexdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_ishexdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         *value <<= 4;
         *value += kefir_hex32todec(chr);
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
 }
@@ -191,10 +191,10 @@ static kefir_result_t next_octal_constant(struct kefir_lexer_source_cursor *curs
     REQUIRE(chr == U'0', KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match octal integer constant"));
 
     *value = 0;
-    for (; kefir_isoctdigit32(chr);
-         kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+    for (; kefir_isoctdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
         *value <<= 3;
         *value += chr - U'0';
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 67b8cd1d9596590b20cca3aa0eea8037ecc7c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 07/43] fix: report failed punctuator concatenation

---
 source/preprocessor/user_macro.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index e2c1012..0aead81 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -277,7 +277,10 @@ static kefir_result_t macro_concat_punctuators(struct kefir_mem *mem, struct kef
             struct kefir_token token;
             REQUIRE_OK(kefir_token_new_punctuator(Combinations[i].result, &token));
             kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token);
-            REQUIRE_ELSE(res == KEFIR_OK, { kefir_token_free(mem, &token); });
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, &token);
+                return res;
+            });
             REQUIRE_OK(kefir_token_free(mem, &token));
             return KEFIR_OK;
         }
-- 
2.43.0


From ff42d852b25eb10ee1199b77689e39bcaa66e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 08/43] fix: propagate amd64 code generator failures

---
 headers/kefir/codegen/amd64/shortcuts.h       | 3 ++-
 source/codegen/amd64/system-v/abi/function.c  | 4 ++++
 source/codegen/amd64/system-v/abi/qwords.c    | 2 +-
 source/codegen/amd64/system-v/abi/registers.c | 8 ++++----
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/headers/kefir/codegen/amd64/shortcuts.h b/headers/kefir/codegen/amd64/shortcuts.h
index 48cc8b6..d08bc29 100644
--- a/headers/kefir/codegen/amd64/shortcuts.h
+++ b/headers/kefir/codegen/amd64/shortcuts.h
@@ -37,7 +37,8 @@
 #define ASMGEN_ARG0(asmgen, arg) REQUIRE_OK(KEFIR_AMD64_ASMGEN_ARG((asmgen), "%s", (arg)))
 #define ASMGEN_SYMBOL_ARG(asmgen, arg) REQUIRE_OK(KEFIR_AMD64_ASMGEN_SYMBOL_ARG((asmgen), (arg)))
 #define ASMGEN_RAW(asmgen, width) REQUIRE_OK(KEFIR_AMD64_ASMGEN_RAWDATA((asmgen), (width)))
-#define ASMGEN_STRING_LITERAL(asmgen, literal, length) KEFIR_AMD64_ASMGEN_STRING_LITERAL((asmgen), (literal), (length))
+#define ASMGEN_STRING_LITERAL(asmgen, literal, length) \
+    REQUIRE_OK(KEFIR_AMD64_ASMGEN_STRING_LITERAL((asmgen), (literal), (length)))
 #define ASMGEN_MULRAW(asmgen, times, width) REQUIRE_OK(KEFIR_AMD64_ASMGEN_MULRAWDATA((asmgen), (times), (width)))
 #define ASMGEN_ZERODATA(asmgen, count) REQUIRE_OK(KEFIR_AMD64_ASMGEN_ZERODATA((asmgen), (count)))
 
diff --git a/source/codegen/amd64/system-v/abi/function.c b/source/codegen/amd64/system-v/abi/function.c
index 44b4c54..64cece9 100644
--- a/source/codegen/amd64/system-v/abi/function.c
+++ b/source/codegen/amd64/system-v/abi/function.c
@@ -126,12 +126,16 @@ static kefir_result_t calculate_frame_temporaries(struct kefir_mem *mem,
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, false);
+            REQUIRE(decl != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to obtain AMD64 System-V function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_INVOKEV) {
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, true);
+            REQUIRE(decl != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to obtain AMD64 System-V function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_VARARG_GET) {
diff --git a/source/codegen/amd64/system-v/abi/qwords.c b/source/codegen/amd64/system-v/abi/qwords.c
index 96d5d82..0fb3f48 100644
--- a/source/codegen/amd64/system-v/abi/qwords.c
+++ b/source/codegen/amd64/system-v/abi/qwords.c
@@ -56,7 +56,7 @@ kefir_result_t kefir_amd64_sysv_abi_qwords_alloc(struct kefir_amd64_sysv_abi_qwo
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
 
     REQUIRE_OK(kefir_vector_alloc(mem, sizeof(struct kefir_amd64_sysv_abi_qword), qword_count, &qwords->qwords));
-    kefir_vector_extend(&qwords->qwords, qword_count);
+    REQUIRE_OK(kefir_vector_extend(&qwords->qwords, qword_count));
     for (kefir_size_t i = 0; i < qword_count; i++) {
         ASSIGN_DECL_CAST(struct kefir_amd64_sysv_abi_qword *, qword, kefir_vector_at(&qwords->qwords, i));
         qword->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
diff --git a/source/codegen/amd64/system-v/abi/registers.c b/source/codegen/amd64/system-v/abi/registers.c
index 766885d..fafb3bc 100644
--- a/source/codegen/amd64/system-v/abi/registers.c
+++ b/source/codegen/amd64/system-v/abi/registers.c
@@ -505,8 +505,8 @@ static kefir_result_t assign_immediate_array(const struct kefir_ir_type *type, k
         allocation->klass = KEFIR_AMD64_SYSV_PARAM_MEMORY;
         info->slot += kefir_ir_type_node_slots(type, index) - 1;
     } else {
-        immediate_array_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation, &info->slot,
-                               allocation);
+        REQUIRE_OK(immediate_array_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation,
+                                          &info->slot, allocation));
     }
     return calculate_qword_requirements(allocation, layout);
 }
@@ -559,8 +559,8 @@ static kefir_result_t assign_immediate_union(const struct kefir_ir_type *type, k
         allocation->klass = KEFIR_AMD64_SYSV_PARAM_MEMORY;
         info->slot += kefir_ir_type_node_slots(type, index) - 1;
     } else {
-        immediate_union_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation, &info->slot,
-                               allocation);
+        REQUIRE_OK(immediate_union_unwrap(info->mem, type, index, typeentry, layout, info->layout, info->allocation,
+                                          &info->slot, allocation));
     }
     return calculate_qword_requirements(allocation, layout);
 }
-- 
2.43.0


From bfd7416494b980ccab71f513aad6c7224de9f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 09/43] fix: check allocation of composite and promoted AST
 types

---
 source/ast/type/array.c    |  8 ++++++--
 source/ast/type/function.c |  6 +++---
 source/ast/type/struct.c   | 38 ++++++++++++++++++++------------------
 source/ast/type_conv.c     | 23 ++++++++++++++++-------
 4 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/source/ast/type/array.c b/source/ast/type/array.c
index 90f135e..c02e3ba 100644
--- a/source/ast/type/array.c
+++ b/source/ast/type/array.c
@@ -99,7 +99,9 @@ const struct kefir_ast_type *composite_array_types(struct kefir_mem *mem, struct
                                      type2->array_type.element_type),
             vlen, NULL);
         REQUIRE_ELSE(composite_type != NULL, {
-            KEFIR_AST_NODE_FREE(mem, vlen);
+            if (vlen != NULL) {
+                KEFIR_AST_NODE_FREE(mem, vlen);
+            }
             return NULL;
         });
         return composite_type;
@@ -115,7 +117,9 @@ const struct kefir_ast_type *composite_array_types(struct kefir_mem *mem, struct
                                      type2->array_type.element_type),
             vlen, NULL);
         REQUIRE_ELSE(composite_type != NULL, {
-            KEFIR_AST_NODE_FREE(mem, vlen);
+            if (vlen != NULL) {
+                KEFIR_AST_NODE_FREE(mem, vlen);
+            }
             return NULL;
         });
         return composite_type;
diff --git a/source/ast/type/function.c b/source/ast/type/function.c
index c8b7085..39e474d 100644
--- a/source/ast/type/function.c
+++ b/source/ast/type/function.c
@@ -129,9 +129,9 @@ static kefir_bool_t parameter_list_unaffected_by_promotions(const struct kefir_a
     for (iter = kefir_list_head(&type->function_type.parameters); iter != NULL; kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_function_type_parameter *, param, iter->value);
         const struct kefir_ast_type *unqualified = kefir_ast_unqualified_type(param->adjusted_type);
-        REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, unqualified,
-                                          kefir_ast_type_function_default_argument_promotion(type_traits, unqualified)),
-                false);
+        const struct kefir_ast_type *promoted =
+            kefir_ast_type_function_default_argument_promotion(type_traits, unqualified);
+        REQUIRE(promoted != NULL && KEFIR_AST_TYPE_COMPATIBLE(type_traits, unqualified, promoted), false);
     }
     return true;
 }
diff --git a/source/ast/type/struct.c b/source/ast/type/struct.c
index 27f171b..7063d9a 100644
--- a/source/ast/type/struct.c
+++ b/source/ast/type/struct.c
@@ -110,17 +110,18 @@ const struct kefir_ast_type *composite_struct_types(struct kefir_mem *mem, struc
                 KEFIR_AST_TYPE_COMPOSITE(mem, type_bundle, type_traits, field1->type, field2->type);
             REQUIRE(composite_field_type != NULL, NULL);
             kefir_result_t res = KEFIR_OK;
+            struct kefir_ast_constant_expression *bitwidth = NULL;
+            struct kefir_ast_alignment *alignment = kefir_ast_alignment_const_expression(
+                mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value));
+            REQUIRE(alignment != NULL, NULL);
             if (field1->bitfield) {
-                res = kefir_ast_struct_type_bitfield(
-                    mem, symbols, composite_struct, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)),
-                    kefir_ast_constant_expression_integer(mem, field1->bitwidth->value.integer));
+                bitwidth = kefir_ast_constant_expression_integer(mem, field1->bitwidth->value.integer);
+                REQUIRE(bitwidth != NULL, NULL);
+                res = kefir_ast_struct_type_bitfield(mem, symbols, composite_struct, field1->identifier,
+                                                     composite_field_type, alignment, bitwidth);
             } else {
-                res = kefir_ast_struct_type_field(
-                    mem, symbols, composite_struct, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)));
+                res = kefir_ast_struct_type_field(mem, symbols, composite_struct, field1->identifier,
+                                                  composite_field_type, alignment);
             }
             REQUIRE(res == KEFIR_OK, NULL);
         }
@@ -257,17 +258,18 @@ const struct kefir_ast_type *composite_union_types(struct kefir_mem *mem, struct
             const struct kefir_ast_type *composite_field_type =
                 KEFIR_AST_TYPE_COMPOSITE(mem, type_bundle, type_traits, field1->type, field2->type);
             REQUIRE(composite_field_type != NULL, NULL);
+            struct kefir_ast_constant_expression *bitwidth = NULL;
+            struct kefir_ast_alignment *alignment = kefir_ast_alignment_const_expression(
+                mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value));
+            REQUIRE(alignment != NULL, NULL);
             if (field1->bitfield) {
-                res = kefir_ast_struct_type_bitfield(
-                    mem, symbols, composite_union, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)),
-                    kefir_ast_constant_expression_integer(mem, field1->bitwidth->value.integer));
+                bitwidth = kefir_ast_constant_expression_integer(mem, field1->bitwidth->value.integer);
+                REQUIRE(bitwidth != NULL, NULL);
+                res = kefir_ast_struct_type_bitfield(mem, symbols, composite_union, field1->identifier,
+                                                     composite_field_type, alignment, bitwidth);
             } else {
-                res = kefir_ast_struct_type_field(
-                    mem, symbols, composite_union, field1->identifier, composite_field_type,
-                    kefir_ast_alignment_const_expression(
-                        mem, kefir_ast_constant_expression_integer(mem, field1->alignment->value)));
+                res = kefir_ast_struct_type_field(mem, symbols, composite_union, field1->identifier,
+                                                  composite_field_type, alignment);
             }
             REQUIRE(res == KEFIR_OK, NULL);
         }
diff --git a/source/ast/type_conv.c b/source/ast/type_conv.c
index db14f74..ff3fdbc 100644
--- a/source/ast/type_conv.c
+++ b/source/ast/type_conv.c
@@ -41,9 +41,12 @@ const struct kefir_ast_type *kefir_ast_type_int_promotion(const struct kefir_ast
     const struct kefir_ast_type *UNSIGNED_INT = kefir_ast_type_unsigned_int();
     if (type->basic_type.rank < SIGNED_INT->basic_type.rank) {
         kefir_bool_t fits = false;
-        if (type_traits->integral_type_fits(type_traits, type, SIGNED_INT, &fits) == KEFIR_OK && fits) {
+        REQUIRE(type_traits->integral_type_fits(type_traits, type, SIGNED_INT, &fits) == KEFIR_OK, NULL);
+        if (fits) {
             return SIGNED_INT;
-        } else if (type_traits->integral_type_fits(type_traits, type, UNSIGNED_INT, &fits) == KEFIR_OK && fits) {
+        }
+        REQUIRE(type_traits->integral_type_fits(type_traits, type, UNSIGNED_INT, &fits) == KEFIR_OK, NULL);
+        if (fits) {
             return UNSIGNED_INT;
         } else if (bitfield_props.bitfield) {
             return type;
@@ -109,11 +112,15 @@ const struct kefir_ast_type *kefir_ast_type_common_arithmetic(const struct kefir
         return type2;
     }
     if (type1_sign) {
-        if (type_traits->integral_type_fits(type_traits, type2, type1, &fits) == KEFIR_OK && fits) {
+        REQUIRE(type_traits->integral_type_fits(type_traits, type2, type1, &fits) == KEFIR_OK, NULL);
+        if (fits) {
             return type1;
         }
-    } else if (type_traits->integral_type_fits(type_traits, type1, type2, &fits) == KEFIR_OK && fits) {
-        return type2;
+    } else {
+        REQUIRE(type_traits->integral_type_fits(type_traits, type1, type2, &fits) == KEFIR_OK, NULL);
+        if (fits) {
+            return type2;
+        }
     }
     if (type1_sign) {
         return kefir_ast_type_flip_integer_singedness(type_traits, type1);
@@ -141,8 +148,10 @@ const struct kefir_ast_type *kefir_ast_type_function_default_argument_convertion
     REQUIRE(type_traits != NULL, NULL);
     REQUIRE(original != NULL, NULL);
 
-    const struct kefir_ast_type *param_type = kefir_ast_type_conv_unwrap_enumeration(
-        kefir_ast_unqualified_type(KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, type_bundle, original)));
+    const struct kefir_ast_type *converted_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, type_bundle, original);
+    REQUIRE(converted_type != NULL, NULL);
+    const struct kefir_ast_type *param_type =
+        kefir_ast_type_conv_unwrap_enumeration(kefir_ast_unqualified_type(converted_type));
     return kefir_ast_type_function_default_argument_promotion(type_traits, param_type);
 }
 
-- 
2.43.0


From bbfe58b3241c132f3fa1eeee16a83361e332de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 10/43] fix: check AST type allocation in semantic analysis

---
 source/ast/analyzer/declarator.c              | 22 +++++++++++++------
 source/ast/analyzer/initializer.c             |  1 +
 source/ast/analyzer/nodes/array_subscript.c   |  2 ++
 .../ast/analyzer/nodes/assignment_operator.c  |  3 +++
 source/ast/analyzer/nodes/binary_operation.c  |  2 ++
 source/ast/analyzer/nodes/builtin.c           |  6 +++++
 source/ast/analyzer/nodes/cast_operator.c     |  1 +
 source/ast/analyzer/nodes/comma_operator.c    |  1 +
 .../ast/analyzer/nodes/conditional_operator.c | 12 ++++++++++
 .../analyzer/nodes/conditional_statement.c    |  1 +
 .../ast/analyzer/nodes/do_while_statement.c   |  1 +
 source/ast/analyzer/nodes/for_statement.c     |  1 +
 source/ast/analyzer/nodes/function_call.c     |  1 +
 source/ast/analyzer/nodes/generic_selection.c |  1 +
 source/ast/analyzer/nodes/goto_statement.c    |  1 +
 source/ast/analyzer/nodes/label_address.c     |  1 +
 .../ast/analyzer/nodes/statement_expression.c |  1 +
 source/ast/analyzer/nodes/string_literal.c    |  1 +
 source/ast/analyzer/nodes/struct_member.c     |  2 ++
 source/ast/analyzer/nodes/switch_statement.c  |  2 ++
 source/ast/analyzer/nodes/unary_operation.c   | 10 +++++++++
 source/ast/analyzer/nodes/while_statement.c   |  1 +
 22 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 3da449b..5c2cde3 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -246,9 +246,12 @@ static kefir_result_t resolve_enum_type(struct kefir_mem *mem, const struct kefi
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &entry->value->source_location,
                                                "Enumeration constant value shall be an integer constant expression"));
                 constant_value = value.integer;
-                REQUIRE_OK(
-                    kefir_ast_enumeration_type_constant(mem, context->symbols, enum_type, entry->constant,
-                                                        kefir_ast_constant_expression_integer(mem, constant_value)));
+                struct kefir_ast_constant_expression *enum_value =
+                    kefir_ast_constant_expression_integer(mem, constant_value);
+                REQUIRE(enum_value != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST constant expression"));
+                REQUIRE_OK(kefir_ast_enumeration_type_constant(mem, context->symbols, enum_type, entry->constant,
+                                                               enum_value));
             } else {
                 REQUIRE_OK(kefir_ast_enumeration_type_constant_auto(mem, context->symbols, enum_type, entry->constant));
             }
@@ -795,14 +798,16 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(declarator->array.length->properties.type),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
                                                "Variable-length array declaration length shall have integral type"));
+                struct kefir_ast_node_base *vlen = KEFIR_AST_NODE_CLONE(mem, declarator->array.length);
+                REQUIRE(vlen != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to clone AST node"));
                 if (declarator->array.static_array) {
-                    *base_type = kefir_ast_type_vlen_array_static(mem, context->type_bundle, *base_type,
-                                                                  KEFIR_AST_NODE_CLONE(mem, declarator->array.length),
+                    *base_type = kefir_ast_type_vlen_array_static(mem, context->type_bundle, *base_type, vlen,
                                                                   &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 } else {
                     *base_type =
-                        kefir_ast_type_vlen_array(mem, context->type_bundle, *base_type,
-                                                  KEFIR_AST_NODE_CLONE(mem, declarator->array.length), &qualification);
+                        kefir_ast_type_vlen_array(mem, context->type_bundle, *base_type, vlen, &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
             } else {
                 REQUIRE_OK(res);
@@ -813,10 +818,12 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                     *base_type = kefir_ast_type_array_static(mem, context->type_bundle, *base_type,
                                                              kefir_ast_constant_expression_integer(mem, value.integer),
                                                              &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 } else {
                     *base_type =
                         kefir_ast_type_array(mem, context->type_bundle, *base_type,
                                              kefir_ast_constant_expression_integer(mem, value.integer), &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
             }
         } break;
@@ -990,6 +997,7 @@ static kefir_result_t analyze_declaration_specifiers_impl(
                                      kefir_ast_declarator_specifier_list_source_location(specifiers), &base_type));
     if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualification)) {
         base_type = kefir_ast_type_qualified(mem, context->type_bundle, base_type, qualification);
+        REQUIRE(base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     ASSIGN_PTR(type, base_type);
diff --git a/source/ast/analyzer/initializer.c b/source/ast/analyzer/initializer.c
index f2e8acf..de0281e 100644
--- a/source/ast/analyzer/initializer.c
+++ b/source/ast/analyzer/initializer.c
@@ -273,6 +273,7 @@ static kefir_result_t analyze_array(struct kefir_mem *mem, const struct kefir_as
             properties->type = kefir_ast_type_array(mem, context->type_bundle, type->array_type.element_type,
                                                     kefir_ast_constant_expression_integer(mem, array_length),
                                                     &type->array_type.qualifications);
+            REQUIRE(properties->type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } else {
             properties->type = type;
         }
diff --git a/source/ast/analyzer/nodes/array_subscript.c b/source/ast/analyzer/nodes/array_subscript.c
index f785d13..20c979f 100644
--- a/source/ast/analyzer/nodes/array_subscript.c
+++ b/source/ast/analyzer/nodes/array_subscript.c
@@ -45,8 +45,10 @@ kefir_result_t kefir_ast_analyze_array_subscript_node(struct kefir_mem *mem, con
 
     const struct kefir_ast_type *array_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->array->properties.type);
+    REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *subcript_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->subscript->properties.type);
+    REQUIRE(subcript_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type = NULL;
     if (array_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(subcript_type),
diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index 5e7a063..b5f1f63 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -42,8 +42,10 @@ static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const
                                                    const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(target_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->value->properties.type);
+    REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     switch (node->operation) {
         case KEFIR_AST_ASSIGNMENT_MULTIPLY:
         case KEFIR_AST_ASSIGNMENT_DIVIDE:
@@ -136,5 +138,6 @@ kefir_result_t kefir_ast_analyze_assignment_operator_node(struct kefir_mem *mem,
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 76f3759..788ea0e 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -244,8 +244,10 @@ kefir_result_t kefir_ast_analyze_binary_operation_node(struct kefir_mem *mem, co
 
     const struct kefir_ast_type *type1 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg1->properties.type);
+    REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type2 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg2->properties.type);
+    REQUIRE(type2 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.expression_props.constant_expression =
diff --git a/source/ast/analyzer/nodes/builtin.c b/source/ast/analyzer/nodes/builtin.c
index aabad3a..17cf177 100644
--- a/source/ast/analyzer/nodes/builtin.c
+++ b/source/ast/analyzer/nodes/builtin.c
@@ -121,6 +121,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &size->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_BUILTIN_ALLOCA_WITH_ALIGN: {
@@ -140,6 +142,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &alignment->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_BUILTIN_ALLOCA_WITH_ALIGN_AND_MAX: {
@@ -160,6 +164,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &alignment->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
     }
     return KEFIR_OK;
diff --git a/source/ast/analyzer/nodes/cast_operator.c b/source/ast/analyzer/nodes/cast_operator.c
index e713dac..ef7945a 100644
--- a/source/ast/analyzer/nodes/cast_operator.c
+++ b/source/ast/analyzer/nodes/cast_operator.c
@@ -42,6 +42,7 @@ kefir_result_t kefir_ast_analyze_cast_operator_node(struct kefir_mem *mem, const
 
     const struct kefir_ast_type *expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, cast->expr->properties.type);
+    REQUIRE(expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *cast_type = kefir_ast_unqualified_type(cast->type_name->base.properties.type);
     REQUIRE((KEFIR_AST_TYPE_IS_SCALAR_TYPE(expr_type) && KEFIR_AST_TYPE_IS_SCALAR_TYPE(cast_type)) ||
                 cast->type_name->base.properties.type->tag == KEFIR_AST_TYPE_VOID,
diff --git a/source/ast/analyzer/nodes/comma_operator.c b/source/ast/analyzer/nodes/comma_operator.c
index 53cd551..6d17923 100644
--- a/source/ast/analyzer/nodes/comma_operator.c
+++ b/source/ast/analyzer/nodes/comma_operator.c
@@ -49,6 +49,7 @@ kefir_result_t kefir_ast_analyze_comma_operator_node(struct kefir_mem *mem, cons
                                        "All comma operands shall be expressions"));
 
         base->properties.type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr->properties.type);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     return KEFIR_OK;
diff --git a/source/ast/analyzer/nodes/conditional_operator.c b/source/ast/analyzer/nodes/conditional_operator.c
index 2f7943b..fd5c797 100644
--- a/source/ast/analyzer/nodes/conditional_operator.c
+++ b/source/ast/analyzer/nodes/conditional_operator.c
@@ -59,8 +59,10 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->condition->properties.type);
     const struct kefir_ast_type *type1 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, left_expr->properties.type);
+    REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type2 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expr2->properties.type);
+    REQUIRE(type2 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
@@ -77,6 +79,7 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
         base->properties.type = kefir_ast_type_common_arithmetic(
             context->type_traits, type1, left_expr->properties.expression_props.bitfield_props, type2,
             node->expr2->properties.expression_props.bitfield_props);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else if ((type1->tag == KEFIR_AST_TYPE_STRUCTURE || type1->tag == KEFIR_AST_TYPE_UNION) &&
                (type2->tag == KEFIR_AST_TYPE_STRUCTURE || type2->tag == KEFIR_AST_TYPE_UNION) &&
                KEFIR_AST_TYPE_SAME(type1, type2)) {
@@ -113,19 +116,28 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
                 if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&total_qualifications)) {
                     result_type =
                         kefir_ast_type_qualified(mem, context->type_bundle, result_type, total_qualifications);
+                    REQUIRE(result_type != NULL,
+                            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
                 base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, result_type);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             } else {
                 REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, unqualified1, unqualified2),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &left_expr->source_location,
                                                "Both conditional expressions shall have compatible types"));
                 const struct kefir_ast_type *result_type = KEFIR_AST_TYPE_COMPOSITE(
                     mem, context->type_bundle, context->type_traits, unqualified1, unqualified2);
+                REQUIRE(result_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&total_qualifications)) {
                     result_type =
                         kefir_ast_type_qualified(mem, context->type_bundle, result_type, total_qualifications);
+                    REQUIRE(result_type != NULL,
+                            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
                 base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, result_type);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             }
         }
     }
diff --git a/source/ast/analyzer/nodes/conditional_statement.c b/source/ast/analyzer/nodes/conditional_statement.c
index ed8180d..aa25856 100644
--- a/source/ast/analyzer/nodes/conditional_statement.c
+++ b/source/ast/analyzer/nodes/conditional_statement.c
@@ -68,6 +68,7 @@ kefir_result_t kefir_ast_analyze_conditional_statement_node(struct kefir_mem *me
 
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->condition->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->condition->source_location,
                                    "Expected if statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/do_while_statement.c b/source/ast/analyzer/nodes/do_while_statement.c
index da179cc..ba03ec5 100644
--- a/source/ast/analyzer/nodes/do_while_statement.c
+++ b/source/ast/analyzer/nodes/do_while_statement.c
@@ -64,6 +64,7 @@ kefir_result_t kefir_ast_analyze_do_while_statement_node(struct kefir_mem *mem,
                                    "Expected do while statement controlling expression to be scalar expression"));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                    "Expected do while statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/for_statement.c b/source/ast/analyzer/nodes/for_statement.c
index 34c2cc7..4eb2162 100644
--- a/source/ast/analyzer/nodes/for_statement.c
+++ b/source/ast/analyzer/nodes/for_statement.c
@@ -97,6 +97,7 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
                                        "Expected the second clause of for statement to be an expression"));
         const struct kefir_ast_type *condition_type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+        REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                        "Expected for statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/function_call.c b/source/ast/analyzer/nodes/function_call.c
index 2f6d30e..b6788c8 100644
--- a/source/ast/analyzer/nodes/function_call.c
+++ b/source/ast/analyzer/nodes/function_call.c
@@ -72,6 +72,7 @@ kefir_result_t kefir_ast_analyze_function_call_node(struct kefir_mem *mem, const
 
     const struct kefir_ast_type *func_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->function->properties.type);
+    REQUIRE(func_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(
         func_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER && func_type->referenced_type->tag == KEFIR_AST_TYPE_FUNCTION,
         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->function->source_location,
diff --git a/source/ast/analyzer/nodes/generic_selection.c b/source/ast/analyzer/nodes/generic_selection.c
index f043c43..fe6695a 100644
--- a/source/ast/analyzer/nodes/generic_selection.c
+++ b/source/ast/analyzer/nodes/generic_selection.c
@@ -36,6 +36,7 @@ kefir_result_t kefir_ast_analyze_generic_selection_node(struct kefir_mem *mem, c
     REQUIRE_OK(kefir_ast_analyze_node(mem, context, node->control));
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     kefir_bool_t matched = false;
diff --git a/source/ast/analyzer/nodes/goto_statement.c b/source/ast/analyzer/nodes/goto_statement.c
index 5402151..fabc533 100644
--- a/source/ast/analyzer/nodes/goto_statement.c
+++ b/source/ast/analyzer/nodes/goto_statement.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_goto_statement_node(struct kefir_mem *mem, cons
 
         const struct kefir_ast_type *type1 =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+        REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                        "Goto operand shall be derefenced pointer"));
diff --git a/source/ast/analyzer/nodes/label_address.c b/source/ast/analyzer/nodes/label_address.c
index 9cc3b1b..b11daaf 100644
--- a/source/ast/analyzer/nodes/label_address.c
+++ b/source/ast/analyzer/nodes/label_address.c
@@ -43,6 +43,7 @@ kefir_result_t kefir_ast_analyze_label_address_node(struct kefir_mem *mem, const
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     base->properties.expression_props.scoped_id = scoped_id;
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/statement_expression.c b/source/ast/analyzer/nodes/statement_expression.c
index 3ba059a..5c46dba 100644
--- a/source/ast/analyzer/nodes/statement_expression.c
+++ b/source/ast/analyzer/nodes/statement_expression.c
@@ -71,6 +71,7 @@ kefir_result_t kefir_ast_analyze_statement_expression_node(struct kefir_mem *mem
 
         base->properties.type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr_statement->expression->properties.type);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         base->properties.type = kefir_ast_type_void();
     }
diff --git a/source/ast/analyzer/nodes/string_literal.c b/source/ast/analyzer/nodes/string_literal.c
index d4c028c..f47d36a 100644
--- a/source/ast/analyzer/nodes/string_literal.c
+++ b/source/ast/analyzer/nodes/string_literal.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_string_literal_node(struct kefir_mem *mem, cons
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type,
                                                  kefir_ast_constant_expression_integer(mem, node->length), NULL);
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     base->properties.expression_props.constant_expression = true;
     base->properties.expression_props.string_literal.type = node->type;
     base->properties.expression_props.string_literal.content = node->literal;
diff --git a/source/ast/analyzer/nodes/struct_member.c b/source/ast/analyzer/nodes/struct_member.c
index e929665..9b60a99 100644
--- a/source/ast/analyzer/nodes/struct_member.c
+++ b/source/ast/analyzer/nodes/struct_member.c
@@ -45,6 +45,7 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     const struct kefir_ast_type_qualification *qualification = NULL;
     if (base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER) {
         struct_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, struct_type);
+        REQUIRE(struct_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(struct_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->structure->source_location,
                                        "Expected pointer type on the left side of arrow operator"));
@@ -75,6 +76,7 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     REQUIRE_OK(kefir_ast_type_completion(mem, context, &type, field->type));
     if (qualification != NULL) {
         type = kefir_ast_type_qualified(mem, context->type_bundle, type, *qualification);
+        REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
diff --git a/source/ast/analyzer/nodes/switch_statement.c b/source/ast/analyzer/nodes/switch_statement.c
index a7ae5aa..d2330d1 100644
--- a/source/ast/analyzer/nodes/switch_statement.c
+++ b/source/ast/analyzer/nodes/switch_statement.c
@@ -53,6 +53,8 @@ kefir_result_t kefir_ast_analyze_switch_statement_node(struct kefir_mem *mem, co
 
     const struct kefir_ast_type *normalized_controlling_expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expression->properties.type);
+    REQUIRE(normalized_controlling_expr_type != NULL,
+            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_controlling_expr_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                    "Expected switch controlling expression to be an integral expression"));
diff --git a/source/ast/analyzer/nodes/unary_operation.c b/source/ast/analyzer/nodes/unary_operation.c
index 1119f91..d793046 100644
--- a/source/ast/analyzer/nodes/unary_operation.c
+++ b/source/ast/analyzer/nodes/unary_operation.c
@@ -44,12 +44,15 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Unary operator operand shall be an arithmetic expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Unary operator operand shall be an arithmetic expression"));
             if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type1)) {
                 base->properties.type = kefir_ast_type_int_promotion(
                     context->type_traits, type1, node->arg->properties.expression_props.bitfield_props);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             } else {
                 base->properties.type = type1;
             }
@@ -63,11 +66,14 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Inversion operand shall be an integral expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Inversion operand shall be an integral expression"));
             base->properties.type = kefir_ast_type_int_promotion(context->type_traits, type1,
                                                                  node->arg->properties.expression_props.bitfield_props);
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             base->properties.expression_props.constant_expression =
                 node->arg->properties.expression_props.constant_expression;
         } break;
@@ -78,6 +84,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Logical negation operand shall be a scalar expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Logical negation operand shall be a scalar expression"));
@@ -121,6 +128,8 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                 context, node->arg, &base->properties.expression_props.constant_expression));
             const struct kefir_ast_type *type = node->arg->properties.type;
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, type);
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_OPERATION_INDIRECTION: {
@@ -129,6 +138,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Indirection operator operand shall be a pointer"));
             const struct kefir_ast_type *type =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(type->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Indirection operator operand shall be a pointer"));
diff --git a/source/ast/analyzer/nodes/while_statement.c b/source/ast/analyzer/nodes/while_statement.c
index e7dd32f..34addbe 100644
--- a/source/ast/analyzer/nodes/while_statement.c
+++ b/source/ast/analyzer/nodes/while_statement.c
@@ -66,6 +66,7 @@ kefir_result_t kefir_ast_analyze_while_statement_node(struct kefir_mem *mem, con
 
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                    "Expected while statement controlling expression to be scalar expression"));
-- 
2.43.0


From 7142dec34b3551bc42bab1e196a5cc69b35271ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 11/43] fix: report AST context type and flow control failures

---
 .../constant_expression/binary_operation.c    | 15 ++++++++-----
 .../constant_expression/generic_selection.c   |  1 +
 source/ast/flow_control.c                     |  2 +-
 source/ast/function_declaration_context.c     |  1 +
 source/ast/global_context.c                   | 22 +++++++++++++++++++
 source/ast/local_context.c                    | 18 ++++++++++++++-
 6 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index fbab4fb..dc15450 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -131,12 +131,17 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
                                    "Expected constant expression AST node"));
 
-    const struct kefir_ast_type *common_arith_type = kefir_ast_type_common_arithmetic(
-        context->type_traits, node->arg1->properties.type, node->arg1->properties.expression_props.bitfield_props,
-        node->arg2->properties.type, node->arg2->properties.expression_props.bitfield_props);
     kefir_bool_t common_type_signed_integer = false;
-    if (common_arith_type != NULL && KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(common_arith_type)) {
-        REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, common_arith_type, &common_type_signed_integer));
+    if (KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->arg1->properties.type) &&
+        KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->arg2->properties.type)) {
+        const struct kefir_ast_type *common_arith_type = kefir_ast_type_common_arithmetic(
+            context->type_traits, node->arg1->properties.type, node->arg1->properties.expression_props.bitfield_props,
+            node->arg2->properties.type, node->arg2->properties.expression_props.bitfield_props);
+        REQUIRE(common_arith_type != NULL,
+                KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to determine common arithmetic type"));
+        if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(common_arith_type)) {
+            REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, common_arith_type, &common_type_signed_integer));
+        }
     }
 
     struct kefir_ast_constant_expression_value arg1_value, arg2_value;
diff --git a/source/ast/constant_expression/generic_selection.c b/source/ast/constant_expression/generic_selection.c
index 7d96793..3109f93 100644
--- a/source/ast/constant_expression/generic_selection.c
+++ b/source/ast/constant_expression/generic_selection.c
@@ -41,6 +41,7 @@ kefir_result_t kefir_ast_evaluate_generic_selection_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     for (const struct kefir_list_entry *iter = kefir_list_head(&node->associations); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
diff --git a/source/ast/flow_control.c b/source/ast/flow_control.c
index cd7f4c5..6118cbe 100644
--- a/source/ast/flow_control.c
+++ b/source/ast/flow_control.c
@@ -179,7 +179,7 @@ static kefir_result_t flow_control_statement_free(struct kefir_mem *mem, void *n
 
     ASSIGN_DECL_CAST(struct kefir_ast_flow_control_structure *, statement, node);
     if (statement->cleanup.callback != NULL) {
-        statement->cleanup.callback(mem, statement, statement->cleanup.payload);
+        REQUIRE_OK(statement->cleanup.callback(mem, statement, statement->cleanup.payload));
         statement->cleanup.callback = NULL;
         statement->cleanup.payload = NULL;
     }
diff --git a/source/ast/function_declaration_context.c b/source/ast/function_declaration_context.c
index 5f0d4f9..c725910 100644
--- a/source/ast/function_declaration_context.c
+++ b/source/ast/function_declaration_context.c
@@ -268,6 +268,7 @@ static kefir_result_t context_define_identifier(
 
     const struct kefir_ast_type *adjusted_type =
         kefir_ast_type_conv_adjust_function_parameter(mem, context->type_bundle, unqualified_type);
+    REQUIRE(adjusted_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(
         !KEFIR_AST_TYPE_IS_INCOMPLETE(adjusted_type),
         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Identifier with no linkage shall have complete type"));
diff --git a/source/ast/global_context.c b/source/ast/global_context.c
index eab8d4c..7f7c0b9 100644
--- a/source/ast/global_context.c
+++ b/source/ast/global_context.c
@@ -453,6 +453,8 @@ kefir_result_t kefir_ast_global_context_declare_external(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
@@ -502,6 +504,8 @@ kefir_result_t kefir_ast_global_context_declare_external_thread_local(
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
@@ -554,6 +558,8 @@ kefir_result_t kefir_ast_global_context_define_external(struct kefir_mem *mem, s
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->object.external = false;
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
@@ -581,6 +587,7 @@ kefir_result_t kefir_ast_global_context_define_external(struct kefir_mem *mem, s
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         ordinary_id->type = type;
@@ -623,6 +630,8 @@ kefir_result_t kefir_ast_global_context_define_external_thread_local(
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->object.external = false;
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
@@ -650,6 +659,7 @@ kefir_result_t kefir_ast_global_context_define_external_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
@@ -695,6 +705,8 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         if (initializer == NULL) {
@@ -726,6 +738,7 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
@@ -769,6 +782,8 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
         if (initializer == NULL) {
@@ -800,6 +815,7 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
@@ -956,6 +972,8 @@ kefir_result_t kefir_ast_global_context_declare_function(struct kefir_mem *mem,
                                        "All declarations of the same identifier shall have compatible types"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits,
                                                               ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
     } else {
@@ -1009,6 +1027,8 @@ kefir_result_t kefir_ast_global_context_define_function(struct kefir_mem *mem, s
                                        "Cannot redefine function with the same identifier"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits,
                                                               ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
         ordinary_id->function.external = false;
@@ -1065,6 +1085,8 @@ kefir_result_t kefir_ast_global_context_define_static_function(
                                        "Cannot redefine function with the same identifier"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(mem, &context->type_bundle, context->type_traits,
                                                               ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
         ordinary_id->function.defined = ordinary_id->function.defined || !declaration;
diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 7719f7c..a63825f 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -528,6 +528,8 @@ kefir_result_t kefir_ast_local_context_declare_external(struct kefir_mem *mem, s
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ASSIGN_PTR(scoped_id, ordinary_id);
     } else if (global_ordinary_id != NULL) {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
@@ -536,6 +538,8 @@ kefir_result_t kefir_ast_local_context_declare_external(struct kefir_mem *mem, s
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &global_ordinary_id->object.alignment, alignment));
         global_ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, global_ordinary_id->object.type, type);
+        REQUIRE(global_ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ASSIGN_PTR(scoped_id, global_ordinary_id);
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
@@ -589,6 +593,8 @@ kefir_result_t kefir_ast_local_context_declare_external_thread_local(
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &ordinary_id->object.alignment, alignment));
         ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, ordinary_id->object.type, type);
+        REQUIRE(ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ASSIGN_PTR(scoped_id, ordinary_id);
     } else if (global_ordinary_id != NULL) {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
@@ -597,6 +603,8 @@ kefir_result_t kefir_ast_local_context_declare_external_thread_local(
         REQUIRE_OK(kefir_ast_context_merge_alignment(mem, &global_ordinary_id->object.alignment, alignment));
         global_ordinary_id->object.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, global_ordinary_id->object.type, type);
+        REQUIRE(global_ordinary_id->object.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ASSIGN_PTR(scoped_id, global_ordinary_id);
     } else {
         REQUIRE(res == KEFIR_NOT_FOUND, res);
@@ -673,6 +681,7 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
@@ -739,6 +748,7 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
@@ -767,7 +777,7 @@ static kefir_result_t register_vla(struct kefir_mem *mem, struct kefir_ast_local
     kefir_result_t res =
         kefir_ast_flow_control_tree_traverse(&context->flow_control_tree, find_block_structure, NULL, &block);
 
-    if (res != KEFIR_NOT_FOUND && block != NULL) {
+    if (res != KEFIR_NOT_FOUND) {
         REQUIRE_OK(res);
         block->value.block.contains_vla = true;
 
@@ -839,6 +849,7 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
@@ -905,6 +916,7 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
@@ -1074,6 +1086,8 @@ kefir_result_t kefir_ast_local_context_declare_function(struct kefir_mem *mem, s
                                        "All declarations of the same identifier shall have compatible types"));
         ordinary_id->function.type = KEFIR_AST_TYPE_COMPOSITE(
             mem, &context->global->type_bundle, context->global->type_traits, ordinary_id->function.type, function);
+        REQUIRE(ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(ordinary_id->function.specifier, specifier);
         ASSIGN_PTR(scoped_id_ptr, ordinary_id);
@@ -1084,6 +1098,8 @@ kefir_result_t kefir_ast_local_context_declare_function(struct kefir_mem *mem, s
         global_ordinary_id->function.type =
             KEFIR_AST_TYPE_COMPOSITE(mem, &context->global->type_bundle, context->global->type_traits,
                                      global_ordinary_id->function.type, function);
+        REQUIRE(global_ordinary_id->function.type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         global_ordinary_id->function.specifier =
             kefir_ast_context_merge_function_specifiers(global_ordinary_id->function.specifier, specifier);
         ASSIGN_PTR(scoped_id_ptr, global_ordinary_id);
-- 
2.43.0


From 4c3591a00d6019533f033cecd1e107a50d861b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 12/43] fix: check AST type allocation in translator and reject
 unexpected extension nodes

---
 source/ast-translator/declaration_translator.c      | 4 ++--
 source/ast-translator/function_translator.c         | 1 +
 source/ast-translator/lvalue.c                      | 2 ++
 source/ast-translator/nodes/binary_operation.c      | 7 +++++++
 source/ast-translator/nodes/conditional_statement.c | 1 +
 source/ast-translator/nodes/for_statement.c         | 1 +
 source/ast-translator/nodes/generic_selection.c     | 1 +
 source/ast-translator/nodes/while_statement.c       | 1 +
 source/ast-translator/scope/local_scope_layout.c    | 3 +++
 source/ast-translator/type_translate.c              | 4 +++-
 source/ast-translator/value.c                       | 1 +
 11 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/source/ast-translator/declaration_translator.c b/source/ast-translator/declaration_translator.c
index a673b1f..131c2fc 100644
--- a/source/ast-translator/declaration_translator.c
+++ b/source/ast-translator/declaration_translator.c
@@ -135,8 +135,8 @@ kefir_result_t kefir_ast_translate_declaration(struct kefir_mem *mem, const stru
     if (node->klass->type == KEFIR_AST_EXTENSION_NODE) {
         kefir_result_t res;
         struct kefir_ast_extension_node *ext_node = NULL;
-        REQUIRE_MATCH(&res, kefir_ast_downcast_extension_node(node, &ext_node, true),
-                      KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected AST extension node"));
+        REQUIRE_MATCH_OK(&res, kefir_ast_downcast_extension_node(node, &ext_node, true),
+                         KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected AST extension node"));
 
         REQUIRE(context->extensions != NULL && context->extensions->translate_extension_node != NULL,
                 KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Extension node translation procedure is not defined"));
diff --git a/source/ast-translator/function_translator.c b/source/ast-translator/function_translator.c
index 6b33bc4..2fd687d 100644
--- a/source/ast-translator/function_translator.c
+++ b/source/ast-translator/function_translator.c
@@ -325,6 +325,7 @@ kefir_result_t kefir_ast_translator_function_context_translate(
             const struct kefir_ast_type *default_promotion =
                 kefir_ast_type_function_default_argument_convertion_promotion(
                     mem, context->ast_context->type_bundle, context->ast_context->type_traits, scoped_id->object.type);
+            REQUIRE(default_promotion != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(default_promotion)) {
                 REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, default_promotion,
                                                         scoped_id->object.type));
diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 06e2034..01ea981 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -157,6 +157,7 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
     kefir_result_t res = KEFIR_OK;
     const struct kefir_ast_type *array_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->array->properties.type);
+    REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (array_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->subscript, builder, context));
@@ -187,6 +188,7 @@ kefir_result_t kefir_ast_translate_struct_member_lvalue(struct kefir_mem *mem,
 
     const struct kefir_ast_type *structure_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->structure->properties.type);
+    REQUIRE(structure_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (structure_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         structure_type = kefir_ast_unqualified_type(structure_type->referenced_type);
     }
diff --git a/source/ast-translator/nodes/binary_operation.c b/source/ast-translator/nodes/binary_operation.c
index 205c9c5..d963ca4 100644
--- a/source/ast-translator/nodes/binary_operation.c
+++ b/source/ast-translator/nodes/binary_operation.c
@@ -38,6 +38,7 @@ static kefir_result_t binary_prologue(struct kefir_mem *mem, struct kefir_ast_tr
             KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
     const struct kefir_ast_type *arg2_init_normalized_type =
         kefir_ast_translator_normalize_type(node->arg2->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, arg2_init_normalized_type);
     REQUIRE(arg2_normalized_type != NULL,
@@ -70,8 +71,10 @@ static kefir_result_t translate_addition(struct kefir_mem *mem, struct kefir_ast
                                          const struct kefir_ast_binary_operation *node) {
     const struct kefir_ast_type *arg1_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg1->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg2->properties.type);
+    REQUIRE(arg2_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -134,8 +137,10 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
                                             const struct kefir_ast_binary_operation *node) {
     const struct kefir_ast_type *arg1_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg1->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg2->properties.type);
+    REQUIRE(arg2_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -457,6 +462,7 @@ static kefir_result_t translate_relational_equality(struct kefir_mem *mem, struc
             KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
     const struct kefir_ast_type *arg2_init_normalized_type =
         kefir_ast_translator_normalize_type(node->arg2->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, arg2_init_normalized_type);
     REQUIRE(arg2_normalized_type != NULL,
@@ -580,6 +586,7 @@ static kefir_result_t truncate_value(struct kefir_mem *mem, struct kefir_ast_tra
                                      struct kefir_irbuilder_block *builder, const struct kefir_ast_type *type) {
     const struct kefir_ast_type *normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, type);
+    REQUIRE(normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(normalized_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     } else {
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index e63eebc..26b28fa 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -38,6 +38,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     }
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 5a152f9..6f5fbde 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -65,6 +65,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
+        REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
         }
diff --git a/source/ast-translator/nodes/generic_selection.c b/source/ast-translator/nodes/generic_selection.c
index dfa2a5b..9dce045 100644
--- a/source/ast-translator/nodes/generic_selection.c
+++ b/source/ast-translator/nodes/generic_selection.c
@@ -36,6 +36,7 @@ kefir_result_t kefir_ast_translate_generic_selection_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     for (const struct kefir_list_entry *iter = kefir_list_head(&node->associations); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index df6a92d..1d44ebd 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -43,6 +43,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     }
diff --git a/source/ast-translator/scope/local_scope_layout.c b/source/ast-translator/scope/local_scope_layout.c
index 9dcc629..155129b 100644
--- a/source/ast-translator/scope/local_scope_layout.c
+++ b/source/ast-translator/scope/local_scope_layout.c
@@ -312,6 +312,7 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
     const kefir_size_t begin = kefir_ir_type_total_length(builder->type);
     if (!empty_scope) {
         *scope_type_layout = kefir_ast_new_type_layout(mem, NULL, 0, begin);
+        REQUIRE(*scope_type_layout != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_STRUCT, 0, 0));
     }
     struct kefir_ast_identifier_flat_scope_iterator iter;
@@ -337,6 +338,8 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
         const kefir_size_t children_begin = kefir_ir_type_total_length(builder->type);
         struct kefir_ast_type_layout *sublocal_scopes_type_layout =
             kefir_ast_new_type_layout(mem, NULL, 0, children_begin);
+        REQUIRE(sublocal_scopes_type_layout != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         struct kefir_ir_typeentry *typeentry = kefir_ir_type_at(builder->type, begin);
         typeentry->param++;
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_UNION, 0, 0));
diff --git a/source/ast-translator/type_translate.c b/source/ast-translator/type_translate.c
index 638c176..4f25f1a 100644
--- a/source/ast-translator/type_translate.c
+++ b/source/ast-translator/type_translate.c
@@ -324,7 +324,9 @@ static kefir_result_t translate_struct_type(struct kefir_mem *mem, const struct
 
     if (res == KEFIR_OK && kefir_list_length(&type->structure_type.fields) == 0 && env->configuration->empty_structs) {
         res = KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_CHAR, 0, 0);
-        kefir_ir_type_at(builder->type, type_index)->param++;
+        if (res == KEFIR_OK) {
+            kefir_ir_type_at(builder->type, type_index)->param++;
+        }
     }
 
     REQUIRE_ELSE(res == KEFIR_OK, {
diff --git a/source/ast-translator/value.c b/source/ast-translator/value.c
index e8139b1..700896e 100644
--- a/source/ast-translator/value.c
+++ b/source/ast-translator/value.c
@@ -70,6 +70,7 @@ static kefir_result_t resolve_bitfield_layout(struct kefir_mem *mem, struct kefi
                                               struct kefir_ast_type_layout **member_layout) {
     const struct kefir_ast_type *structure_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->structure->properties.type);
+    REQUIRE(structure_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (structure_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         structure_type = kefir_ast_unqualified_type(structure_type->referenced_type);
     } else if (KEFIR_AST_TYPE_IS_INCOMPLETE(structure_type)) {
-- 
2.43.0


From a6d1ee5e3fb8692969abc743cd38d9c15124f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:24 +0000
Subject: [PATCH 13/43] fix: do not drop designator prefix when its allocation
 fails

---
 source/ast/analyzer/type_traversal.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index cc63891..4c07c91 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -455,12 +455,34 @@ kefir_bool_t kefir_ast_type_traversal_empty(struct kefir_ast_type_traversal *tra
     return true;
 }
 
+static kefir_bool_t is_layer_designated(const struct kefir_ast_type_traversal_layer *layer) {
+    switch (layer->type) {
+        case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
+        case KEFIR_AST_TYPE_TRAVERSAL_UNION: {
+            ASSIGN_DECL_CAST(struct kefir_ast_struct_field *, field, layer->structure.iterator->value);
+            return field != NULL && field->identifier != NULL;
+        }
+
+        case KEFIR_AST_TYPE_TRAVERSAL_ARRAY:
+            return true;
+
+        case KEFIR_AST_TYPE_TRAVERSAL_SCALAR:
+            // Intentionally left blank
+            break;
+    }
+    return false;
+}
+
 struct kefir_ast_designator *kefir_ast_type_traversal_layer_designator(
     struct kefir_mem *mem, struct kefir_symbol_table *symbols, const struct kefir_ast_type_traversal_layer *layer) {
     REQUIRE(mem != NULL, NULL);
     REQUIRE(layer != NULL, NULL);
 
-    struct kefir_ast_designator *base = kefir_ast_type_traversal_layer_designator(mem, symbols, layer->parent);
+    struct kefir_ast_designator *base = NULL;
+    if (layer->parent != NULL && is_layer_designated(layer->parent)) {
+        base = kefir_ast_type_traversal_layer_designator(mem, symbols, layer->parent);
+        REQUIRE(base != NULL, NULL);
+    }
     struct kefir_ast_designator *designator = NULL;
     switch (layer->type) {
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
-- 
2.43.0


From edf22d3ed0cdcbf93b3998d191d05e3203973c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:38 +0000
Subject: [PATCH 14/43] fix: do not free caller-owned declarators and
 initializers when list insertion fails

---
 source/ast/nodes/compound_literal.c | 5 ++++-
 source/ast/nodes/declaration.c      | 2 ++
 source/parser/builder.c             | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/ast/nodes/compound_literal.c b/source/ast/nodes/compound_literal.c
index b3e8c6b..f06137e 100644
--- a/source/ast/nodes/compound_literal.c
+++ b/source/ast/nodes/compound_literal.c
@@ -33,7 +33,10 @@ kefir_result_t ast_compound_literal_free(struct kefir_mem *mem, struct kefir_ast
     REQUIRE(base != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST node base"));
     ASSIGN_DECL_CAST(struct kefir_ast_compound_literal *, node, base->self);
     REQUIRE_OK(KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(node->type_name)));
-    REQUIRE_OK(kefir_ast_initializer_free(mem, node->initializer));
+    if (node->initializer != NULL) {
+        REQUIRE_OK(kefir_ast_initializer_free(mem, node->initializer));
+        node->initializer = NULL;
+    }
     KEFIR_FREE(mem, node);
     return KEFIR_OK;
 }
diff --git a/source/ast/nodes/declaration.c b/source/ast/nodes/declaration.c
index b8cde02..acf76b9 100644
--- a/source/ast/nodes/declaration.c
+++ b/source/ast/nodes/declaration.c
@@ -172,6 +172,8 @@ struct kefir_ast_declaration *kefir_ast_new_single_declaration(struct kefir_mem
         kefir_list_insert_after(mem, &decl_list->init_declarators, kefir_list_tail(&decl_list->init_declarators),
                                 KEFIR_AST_NODE_BASE(declaration));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        declaration->declarator = NULL;
+        declaration->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(decl_list));
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(declaration));
         return NULL;
diff --git a/source/parser/builder.c b/source/parser/builder.c
index c05d6e0..0c7d9c0 100644
--- a/source/parser/builder.c
+++ b/source/parser/builder.c
@@ -662,6 +662,7 @@ kefir_result_t kefir_parser_ast_builder_compound_literal(struct kefir_mem *mem,
 
     res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(compound));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        compound->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(compound));
         return res;
     });
@@ -716,6 +717,8 @@ kefir_result_t kefir_parser_ast_builder_init_declarator(struct kefir_mem *mem, s
         kefir_list_insert_after(mem, &decl_list->init_declarators, kefir_list_tail(&decl_list->init_declarators),
                                 KEFIR_AST_NODE_BASE(init_declarator));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        init_declarator->declarator = NULL;
+        init_declarator->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(init_declarator));
         KEFIR_AST_NODE_FREE(mem, declaration);
         return res;
@@ -723,6 +726,8 @@ kefir_result_t kefir_parser_ast_builder_init_declarator(struct kefir_mem *mem, s
 
     res = kefir_parser_ast_builder_push(mem, builder, declaration);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        init_declarator->declarator = NULL;
+        init_declarator->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, declaration);
         return res;
     });
-- 
2.43.0


From 6d1ac62a0e87b33486c667d22834fcfeb5553766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:22 +0000
Subject: [PATCH 15/43] fix: do not free IR type twice or release uninitialised
 type builder on failure

---
 source/ast-translator/type.c | 5 ++++-
 source/ir/module.c           | 2 --
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/ast-translator/type.c b/source/ast-translator/type.c
index 5ee0b38..f791951 100644
--- a/source/ast-translator/type.c
+++ b/source/ast-translator/type.c
@@ -41,10 +41,13 @@ kefir_result_t kefir_ast_translator_type_new(struct kefir_mem *mem, const struct
     tr_type->type = type;
 
     tr_type->object.ir_type = kefir_ir_module_new_type(mem, module, 0, &tr_type->object.ir_type_id);
+    REQUIRE_ELSE(tr_type->object.ir_type != NULL, {
+        KEFIR_FREE(mem, tr_type);
+        return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate IR type");
+    });
     struct kefir_irbuilder_type type_builder;
     res = kefir_irbuilder_type_init(mem, &type_builder, tr_type->object.ir_type);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_IRBUILDER_TYPE_FREE(&type_builder);
         KEFIR_FREE(mem, tr_type);
         return res;
     });
diff --git a/source/ir/module.c b/source/ir/module.c
index b70dd72..21d8771 100644
--- a/source/ir/module.c
+++ b/source/ir/module.c
@@ -206,8 +206,6 @@ struct kefir_ir_type *kefir_ir_module_new_type(struct kefir_mem *mem, struct kef
                                        (kefir_hashtree_value_t) type);
         REQUIRE_ELSE(result == KEFIR_OK, {
             kefir_list_pop(mem, &module->types, kefir_list_tail(&module->types));
-            kefir_ir_type_free(mem, type);
-            KEFIR_FREE(mem, type);
             return NULL;
         });
     }
-- 
2.43.0


From 6c215864e647df703337c56d87f1df3e30b62528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:28 +0000
Subject: [PATCH 16/43] fix: do not free IR type tree node twice on insertion
 failure

---
 source/ir/type_tree.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/ir/type_tree.c b/source/ir/type_tree.c
index 5aba136..ab371d8 100644
--- a/source/ir/type_tree.c
+++ b/source/ir/type_tree.c
@@ -78,8 +78,6 @@ static struct kefir_ir_type_tree_node *alloc_node(struct kefir_mem *mem, struct
     }
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_hashtree_delete(mem, &tree->index, (kefir_hashtree_key_t) index);
-        kefir_list_free(mem, &node->subtypes);
-        KEFIR_FREE(mem, node);
         return NULL;
     });
 
-- 
2.43.0


From 00374c806510822081f806e94233e3265b8c1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:56 +0000
Subject: [PATCH 17/43] fix: use reentrant time and multibyte conversion
 functions

---
 source/core/string_buffer.c            |  7 +++++--
 source/preprocessor/predefined_macro.c | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 0a029e4..c16aa11 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -23,6 +23,7 @@
 #include "kefir/core/error.h"
 #include <string.h>
 #include <uchar.h>
+#include <wchar.h>
 
 #define BUFFER_MIN_CAPACITY 32
 #define BUFFER_GROW 64
@@ -269,10 +270,12 @@ static kefir_result_t kefir_string_buffer_insert_wide_character(struct kefir_mem
         const char bytes[sizeof(kefir_wchar_t)];
     } wchr;
 
+    mbstate_t mbstate = {0};
     while (begin < end) {
-        int rc = mbtowc(&wchr.value, begin, end - begin);
+        size_t rc = mbrtowc(&wchr.value, begin, end - begin, &mbstate);
         switch (rc) {
-            case -1:
+            case (size_t) -1:
+            case (size_t) -2:
                 return KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert unicode32 character into wide");
             case 0:
                 REQUIRE_OK(insert_buffer(mem, buffer, wchr.bytes, sizeof(kefir_wchar_t)));
diff --git a/source/preprocessor/predefined_macro.c b/source/preprocessor/predefined_macro.c
index 8eb0649..d6ba9fe 100644
--- a/source/preprocessor/predefined_macro.c
+++ b/source/preprocessor/predefined_macro.c
@@ -18,6 +18,7 @@
     along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#define _POSIX_C_SOURCE 200809L
 #include "kefir/preprocessor/predefined_macro.h"
 #include "kefir/preprocessor/preprocessor.h"
 #include "kefir/core/util.h"
@@ -91,9 +92,11 @@ static kefir_result_t macro_date_apply(struct kefir_mem *mem, const struct kefir
     REQUIRE(source_location != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source location"));
     ASSIGN_DECL_CAST(struct kefir_preprocessor_predefined_macro_scope *, predefined_scope, macro->payload);
 
-    struct tm *tm = localtime(&predefined_scope->preprocessor->context->environment.timestamp);
+    struct tm tm;
+    REQUIRE(localtime_r(&predefined_scope->preprocessor->context->environment.timestamp, &tm) != NULL,
+            KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Failed to convert timestamp to local time"));
     char strbuf[256] = {0};
-    size_t count = strftime(strbuf, sizeof(strbuf), "%b %e %Y", tm);
+    size_t count = strftime(strbuf, sizeof(strbuf), "%b %e %Y", &tm);
     REQUIRE(count != 0, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Failed to format current date"));
 
     struct kefir_token token;
@@ -119,9 +122,11 @@ static kefir_result_t macro_time_apply(struct kefir_mem *mem, const struct kefir
     REQUIRE(source_location != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source location"));
     ASSIGN_DECL_CAST(struct kefir_preprocessor_predefined_macro_scope *, predefined_scope, macro->payload);
 
-    struct tm *tm = localtime(&predefined_scope->preprocessor->context->environment.timestamp);
+    struct tm tm;
+    REQUIRE(localtime_r(&predefined_scope->preprocessor->context->environment.timestamp, &tm) != NULL,
+            KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Failed to convert timestamp to local time"));
     char strbuf[256] = {0};
-    size_t count = strftime(strbuf, sizeof(strbuf), "%H:%M:%S", tm);
+    size_t count = strftime(strbuf, sizeof(strbuf), "%H:%M:%S", &tm);
     REQUIRE(count != 0, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Failed to format current time"));
 
     struct kefir_token token;
-- 
2.43.0


From 7ce4a87ee2319fcd1b381f8eb73f109b0de39fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 18/43] fix: do not share lazily initialised type traits
 between compiler profiles

---
 headers/kefir/compiler/profile.h | 1 +
 source/compiler/profile.c        | 9 ++-------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/headers/kefir/compiler/profile.h b/headers/kefir/compiler/profile.h
index 023ae34..3c4dcb7 100644
--- a/headers/kefir/compiler/profile.h
+++ b/headers/kefir/compiler/profile.h
@@ -30,6 +30,7 @@
 
 typedef struct kefir_compiler_profile {
     struct kefir_lexer_context lexer_context;
+    struct kefir_ast_type_traits type_traits_storage;
     const struct kefir_ast_type_traits *type_traits;
     struct kefir_ir_target_platform ir_target_platform;
     const struct kefir_data_model_descriptor *data_model;
diff --git a/source/compiler/profile.c b/source/compiler/profile.c
index ac83386..f00f75f 100644
--- a/source/compiler/profile.c
+++ b/source/compiler/profile.c
@@ -56,17 +56,12 @@ static kefir_result_t kefir_compiler_amd64_sysv_profile(struct kefir_compiler_pr
     static const struct kefir_data_model_descriptor DATA_MODEL_DESCRIPTOR = {
         .model = KEFIR_DATA_MODEL_LP64, .byte_order = KEFIR_BYTE_ORDER_LITTLE_ENDIAN, .signed_integer_width = 32};
 
-    static struct kefir_ast_type_traits TYPE_TRAITS;
-    static kefir_bool_t TYPE_TRAITS_INIT_DONE = false;
-    if (!TYPE_TRAITS_INIT_DONE) {
-        REQUIRE_OK(kefir_ast_type_traits_init(&DATA_MODEL_DESCRIPTOR, &TYPE_TRAITS));
-        TYPE_TRAITS_INIT_DONE = true;
-    }
+    REQUIRE_OK(kefir_ast_type_traits_init(&DATA_MODEL_DESCRIPTOR, &profile->type_traits_storage));
 
     REQUIRE_OK(kefir_lexer_context_default(&profile->lexer_context));
     REQUIRE_OK(kefir_codegen_amd64_sysv_target_platform(&profile->ir_target_platform));
     profile->data_model = &DATA_MODEL_DESCRIPTOR;
-    profile->type_traits = &TYPE_TRAITS;
+    profile->type_traits = &profile->type_traits_storage;
     profile->new_codegen = amd64_sysv_new_codegen;
     profile->free_codegen = amd64_sysv_free_codegen;
     profile->runtime_code = KefirAmd64SysVRuntimeCode;
-- 
2.43.0


From c164685f75f5e59378f0b039b0e69034e224a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:59 +0000
Subject: [PATCH 19/43] fix: reject division by zero and overflow in constant
 expressions

---
 source/ast/constant_expression/binary_operation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index dc15450..56acce4 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -86,7 +86,7 @@ static kefir_result_t evaluate_pointer_diff(struct kefir_mem *mem, const struct
     REQUIRE(pointer2->type == KEFIR_AST_CONSTANT_EXPRESSION_POINTER_INTEGER,
             KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, location2, "Expected pointer to be an integral constant"));
 
-    kefir_size_t diff_factor = 1;
+    kefir_int64_t diff_factor = 1;
 
     const struct kefir_ast_type *unqualified_type = kefir_ast_unqualified_type(type);
     if (unqualified_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
@@ -103,13 +103,15 @@ static kefir_result_t evaluate_pointer_diff(struct kefir_mem *mem, const struct
         });
         REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, context->target_env, opaque_type));
 
-        diff_factor = objinfo.size;
+        diff_factor = (kefir_int64_t) objinfo.size;
     } else {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified_type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location1, "Expected either pointer, or integral type"));
     }
 
     kefir_int64_t diff = (pointer1->base.integral + pointer1->offset) - (pointer2->base.integral + pointer2->offset);
+    REQUIRE(diff_factor > 0, KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, location1,
+                                                    "Expected non-zero referenced object size in pointer difference"));
 
     value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
     value->integer = diff / diff_factor;
@@ -206,6 +208,9 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 REQUIRE(arg2_value.integer != 0,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
+                REQUIRE(arg1_value.integer != KEFIR_INT64_MIN || arg2_value.integer != -1,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                               "Integral overflow in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
                 value->integer = arg1_value.integer / arg2_value.integer;
             } else {
@@ -218,8 +223,14 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             break;
 
         case KEFIR_AST_OPERATION_MODULO:
+            REQUIRE(arg2_value.integer != 0,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                           "Expected non-zero divisor in constant expression"));
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
             if (common_type_signed_integer) {
+                REQUIRE(arg1_value.integer != KEFIR_INT64_MIN || arg2_value.integer != -1,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                               "Integral overflow in constant expression"));
                 value->integer = arg1_value.integer % arg2_value.integer;
             } else {
                 value->uinteger = arg1_value.uinteger % arg2_value.integer;
-- 
2.43.0


From a3e97ce1dbae7a076eb389afff3550afc56777ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:55 +0000
Subject: [PATCH 20/43] fix: extract and insert 64-bit wide bit-fields
 correctly in runtime

---
 source/runtime/amd64_sysv.s | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 8b869c9..85d7bd1 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -673,12 +673,14 @@ define_opcode bcopy
 define_opcode extubits
     mov edx, [INSTR_ARG_PTR]            # Offset
     mov ecx, [INSTR_ARG_PTR4]           # Width
-    mov r11, 1                          # Mask = (1 << Width) - 1
-    shlx r11, r11, rcx
-    sub r11, 1
-    pop rax                             # Value = (Bitfield >> Offset) & Mask
-    shrx rax, rax, rdx
-    and rax, r11
+    add rdx, rcx                        # rdx = 64 - (Width + Offset)
+    neg rdx
+    add rdx, 64
+    neg rcx                             # rcx = 64 - Width
+    add rcx, 64
+    pop rax                             # Value = (Bitfield << rdx)) >> rcx
+    shlx rax, rax, rdx
+    shrx rax, rax, rcx
     push rax
     end_opcode
 
@@ -705,14 +707,14 @@ define_opcode insertbits
     # Mask value: Value = Value << (64 - Width) >> (64 - Width - Offset)
     mov rax, 64                        # RAX = 64 - Width
     sub rax, rcx
+    mov rcx, rax                       # RCX = 64 - Width
     shlx rsi, rsi, rax
     sub rax, rdx                        # RAX = 64 - Width - Offset
     shrx rsi, rsi, rax
 
-    # Mask bit-field: Bit-field = Bit-field & ~(((1 << Width) - 1) << Offset)
-    mov rax, 1
-    shlx rax, rax, rcx
-    sub rax, 1
+    # Mask bit-field: Bit-field = Bit-field & ~((~0 >> (64 - Width)) << Offset)
+    mov rax, -1
+    shrx rax, rax, rcx
     shlx rax, rax, rdx
     not rax
     and rdi, rax
-- 
2.43.0


From 8314d9cff213abb656ec0242d7e658781893f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 21/43] fix: test floating-point controlling expressions of
 statements for zero by value

---
 headers/kefir/ast-translator/typeconv.h       |  4 +++
 .../nodes/conditional_statement.c             |  5 ++--
 .../ast-translator/nodes/do_while_statement.c |  5 ++--
 source/ast-translator/nodes/for_statement.c   |  5 ++--
 source/ast-translator/nodes/while_statement.c |  5 ++--
 source/ast-translator/typeconv.c              | 30 +++++++++++++++++++
 6 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/headers/kefir/ast-translator/typeconv.h b/headers/kefir/ast-translator/typeconv.h
index a055630..46409a5 100644
--- a/headers/kefir/ast-translator/typeconv.h
+++ b/headers/kefir/ast-translator/typeconv.h
@@ -31,4 +31,8 @@ kefir_result_t kefir_ast_translate_typeconv_normalize(struct kefir_irbuilder_blo
 kefir_result_t kefir_ast_translate_typeconv(struct kefir_irbuilder_block *, const struct kefir_ast_type_traits *,
                                             const struct kefir_ast_type *, const struct kefir_ast_type *);
 
+// Reduces floating-point value on top of the stack into a boolean, integral values and pointers are left intact
+kefir_result_t kefir_ast_translate_typeconv_floating_condition(struct kefir_irbuilder_block *,
+                                                               const struct kefir_ast_type *);
+
 #endif
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index 26b28fa..aa211a3 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -22,6 +22,7 @@
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
@@ -39,9 +40,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
     REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_floating_condition(builder, condition_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/do_while_statement.c b/source/ast-translator/nodes/do_while_statement.c
index 124878b..8c2012b 100644
--- a/source/ast-translator/nodes/do_while_statement.c
+++ b/source/ast-translator/nodes/do_while_statement.c
@@ -22,6 +22,7 @@
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 
@@ -46,9 +47,7 @@ kefir_result_t kefir_ast_translate_do_while_statement_node(struct kefir_mem *mem
 
     const struct kefir_ast_type *controlling_expr_type =
         kefir_ast_translator_normalize_type(node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_floating_condition(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, beginning));
 
     REQUIRE_OK(kefir_ast_translator_flow_control_point_resolve(mem, flow_control_stmt->value.loop.end,
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 6f5fbde..00ba5b8 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -22,6 +22,7 @@
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
@@ -66,9 +67,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
         REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
-        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-        }
+        REQUIRE_OK(kefir_ast_translate_typeconv_floating_condition(builder, controlling_expr_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index 1d44ebd..c161e00 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -22,6 +22,7 @@
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
@@ -44,9 +45,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
     REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_floating_condition(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(mem, flow_control_stmt->value.loop.end, builder->block,
diff --git a/source/ast-translator/typeconv.c b/source/ast-translator/typeconv.c
index ff306d9..1417223 100644
--- a/source/ast-translator/typeconv.c
+++ b/source/ast-translator/typeconv.c
@@ -235,3 +235,33 @@ kefir_result_t kefir_ast_translate_typeconv(struct kefir_irbuilder_block *builde
     }
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_ast_translate_typeconv_floating_condition(struct kefir_irbuilder_block *builder,
+                                                               const struct kefir_ast_type *type) {
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+    REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
+
+    const struct kefir_ast_type *normalized_type = kefir_ast_translator_normalize_type(type);
+    switch (normalized_type->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F32EQUALS, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+            break;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F64EQUALS, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+            break;
+
+        case KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+            break;
+
+        default:
+            // Intentionally left blank
+            break;
+    }
+    return KEFIR_OK;
+}
-- 
2.43.0


From c53f069df1b9e672986d4bbb7a91518d9cb5e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 22/43] fix: discard both slots of long double for-statement
 tail expression

---
 source/ast-translator/nodes/for_statement.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 00ba5b8..79a109d 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -84,6 +84,9 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain normalized expression type"));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->tail, builder, context));
         if (tail_type->tag != KEFIR_AST_TYPE_VOID) {
+            if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(tail_type)) {
+                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
+            }
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         }
     }
-- 
2.43.0


From e9585941e8afdf9275f7b03a51ecaba1ed4a024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 23/43] fix: bring result of prefix increment of bit-field into
 its range

---
 source/ast-translator/nodes/unary_operation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 20c4040..d624ac6 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -247,6 +247,14 @@ static kefir_result_t translate_preincdec(struct kefir_mem *mem, struct kefir_as
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
     }
     REQUIRE_OK(kefir_ast_translator_store_lvalue(mem, context, builder, node->arg));
+
+    if (node->arg->properties.expression_props.bitfield_props.bitfield) {
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, normalized_type, &signedness));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder,
+                                                   signedness ? KEFIR_IROPCODE_EXTSBITS : KEFIR_IROPCODE_EXTUBITS, 0,
+                                                   node->arg->properties.expression_props.bitfield_props.width));
+    }
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 9c75a9c39e534153e4944cdf46f4299aa744d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:50 +0000
Subject: [PATCH 24/43] fix: rank long long above long in usual arithmetic
 conversions

---
 source/ast/type/basic.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/ast/type/basic.c b/source/ast/type/basic.c
index f20daa1..522b6a7 100644
--- a/source/ast/type/basic.c
+++ b/source/ast/type/basic.c
@@ -98,11 +98,11 @@ SCALAR_TYPE(unsigned_int, KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT, 3)
 SCALAR_TYPE(signed_int, KEFIR_AST_TYPE_SCALAR_SIGNED_INT, 3)
 SCALAR_TYPE(unsigned_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG, 4)
 SCALAR_TYPE(signed_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG, 4)
-SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 4)
-SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 4)
-SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 5)
-SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 6)
-SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 7)
+SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 5)
+SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 5)
+SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 6)
+SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 7)
+SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 8)
 
 #undef SCALAR_TYPE
 
-- 
2.43.0


From 90d401b0280704ab6fe4e44d68f651ee27ccaf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:50 +0000
Subject: [PATCH 25/43] fix: allow subtraction of integer from void pointer
 when the extension is enabled

---
 source/ast/analyzer/nodes/binary_operation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 788ea0e..58ee666 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -113,8 +113,8 @@ static kefir_result_t analyze_subtraction(const struct kefir_ast_context *contex
         base->properties.type = context->type_traits->ptrdiff_type;
     } else if ((type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER && !KEFIR_AST_TYPE_IS_INCOMPLETE(type1->referenced_type)) ||
                (context->configuration->analysis.ext_pointer_arithmetics &&
-                type2->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
-                kefir_ast_unqualified_type(type2->referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+                type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
+                kefir_ast_unqualified_type(type1->referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type2),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location2, "Right operand shal have an integral type"));
         base->properties.type = type1;
-- 
2.43.0


From bcb9fe8d960e4595dd52c90f6ad1ed91579fa62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 26/43] fix: convert the value of a return statement from its
 unqualified type

---
 source/ast-translator/nodes/return_statement.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/ast-translator/nodes/return_statement.c b/source/ast-translator/nodes/return_statement.c
index 736c061..fac49b9 100644
--- a/source/ast-translator/nodes/return_statement.c
+++ b/source/ast-translator/nodes/return_statement.c
@@ -45,9 +45,8 @@ kefir_result_t kefir_ast_translate_return_statement_node(struct kefir_mem *mem,
                 KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
 
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expression, builder, context));
-        if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(node->expression->properties.type)) {
-            REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits,
-                                                    node->expression->properties.type,
+        if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(return_normalized_type)) {
+            REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, return_normalized_type,
                                                     node->base.properties.statement_props.return_type));
         }
     }
-- 
2.43.0


From 87ff4eed80ab8e7ca1ff9cff01a4f7164db6a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 27/43] fix: convert case constants to the promoted type of the
 switch controlling expression

---
 source/ast/analyzer/nodes/case_statement.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/nodes/case_statement.c b/source/ast/analyzer/nodes/case_statement.c
index 45acc00..9828393 100644
--- a/source/ast/analyzer/nodes/case_statement.c
+++ b/source/ast/analyzer/nodes/case_statement.c
@@ -72,11 +72,17 @@ kefir_result_t kefir_ast_analyze_case_statement_node(struct kefir_mem *mem, cons
         REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                        "Expected AST case label to be an integral constant expression"));
+        struct kefir_ast_constant_expression_value converted_value = value;
+        if (switch_statement->value.switchStatement.controlling_expression_type != NULL) {
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(
+                mem, context, &converted_value, &value, node->expression,
+                switch_statement->value.switchStatement.controlling_expression_type));
+        }
         struct kefir_ast_flow_control_point *point = kefir_ast_flow_control_point_alloc(mem, direct_parent);
         REQUIRE(point != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST flow control point"));
         kefir_result_t res =
             kefir_hashtree_insert(mem, &switch_statement->value.switchStatement.cases,
-                                  (kefir_hashtree_key_t) value.integer, (kefir_hashtree_value_t) point);
+                                  (kefir_hashtree_key_t) converted_value.integer, (kefir_hashtree_value_t) point);
         if (res == KEFIR_ALREADY_EXISTS) {
             res = KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                          "Cannot duplicate case statement constants");
-- 
2.43.0


From e6208f3ee789a64b11f0e3dc6a4938e12587c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:40 +0000
Subject: [PATCH 28/43] fix: evaluate preprocessor conditions in (u)intmax_t as
 C17 6.10.1p4 requires

---
 headers/kefir/preprocessor/preprocessor.h |  3 +++
 source/preprocessor/convert.c             | 30 +++++++++++++++++++++++
 source/preprocessor/preprocessor.c        |  2 +-
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/headers/kefir/preprocessor/preprocessor.h b/headers/kefir/preprocessor/preprocessor.h
index 9628de7..c6b68f1 100644
--- a/headers/kefir/preprocessor/preprocessor.h
+++ b/headers/kefir/preprocessor/preprocessor.h
@@ -123,5 +123,8 @@ kefir_result_t kefir_preprocessor_token_convert(struct kefir_mem *, struct kefir
                                                 const struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *, struct kefir_preprocessor *,
                                                        struct kefir_token_buffer *, const struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *, struct kefir_preprocessor *,
+                                                          struct kefir_token_buffer *,
+                                                          const struct kefir_token_buffer *);
 
 #endif
diff --git a/source/preprocessor/convert.c b/source/preprocessor/convert.c
index de7d4b9..03fa003 100644
--- a/source/preprocessor/convert.c
+++ b/source/preprocessor/convert.c
@@ -270,3 +270,33 @@ kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *mem, st
     }
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
+                                                          struct kefir_preprocessor *preprocessor,
+                                                          struct kefir_token_buffer *dst,
+                                                          const struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_convert_buffer(mem, preprocessor, dst, src));
+
+    // Integer types in preprocessor conditions act as if they have the same representation as (u)intmax_t
+    for (kefir_size_t i = 0; i < dst->length; i++) {
+        struct kefir_token *token = &dst->tokens[i];
+        if (token->klass == KEFIR_TOKEN_CONSTANT) {
+            switch (token->constant.type) {
+                case KEFIR_CONSTANT_TOKEN_INTEGER:
+                case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
+                    token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+                    break;
+
+                case KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER:
+                case KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER:
+                    token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
+                    break;
+
+                default:
+                    // Intentionally left blank
+                    break;
+            }
+        }
+    }
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index e5a5ed1..5545f4b 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -338,7 +338,7 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
     struct kefir_ast_constant_expression_value expr_value;
 
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
-    kefir_result_t res = kefir_preprocessor_token_convert_buffer(mem, preprocessor, &tokens, pp_tokens);
+    kefir_result_t res = kefir_preprocessor_token_convert_condition(mem, preprocessor, &tokens, pp_tokens);
     REQUIRE_CHAIN(&res, kefir_parser_token_cursor_init(&cursor, tokens.tokens, tokens.length));
     REQUIRE_CHAIN(&res, kefir_parser_init(mem, &parser, preprocessor->lexer.symbols, &cursor,
                                           preprocessor->extensions != NULL ? preprocessor->extensions->parser : NULL));
-- 
2.43.0


From 8b391bee8688393a75da8bbaa62fc6fc14a80d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:40 +0000
Subject: [PATCH 29/43] fix: apply arithmetic conversions when folding constant
 expressions

---
 headers/kefir/ast/constant_expression.h       |  2 +-
 .../ast-translator/scope/data_initializer.c   |  2 +-
 source/ast/analyzer/nodes/case_statement.c    |  2 +-
 .../constant_expression/binary_operation.c    | 43 +++++++++++++---
 .../ast/constant_expression/cast_operator.c   | 50 +++++++++++++++++--
 .../conditional_operator.c                    | 21 ++++++--
 .../ast/constant_expression/unary_operation.c | 12 ++++-
 7 files changed, 113 insertions(+), 19 deletions(-)

diff --git a/headers/kefir/ast/constant_expression.h b/headers/kefir/ast/constant_expression.h
index 18df5f7..efcab1f 100644
--- a/headers/kefir/ast/constant_expression.h
+++ b/headers/kefir/ast/constant_expression.h
@@ -87,7 +87,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *, cons
                                                         struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_node_base *,
-                                                        const struct kefir_ast_type *);
+                                                        const struct kefir_ast_type *, const struct kefir_ast_type *);
 
 struct kefir_ast_constant_expression *kefir_ast_new_constant_expression(struct kefir_mem *,
                                                                         struct kefir_ast_node_base *);
diff --git a/source/ast-translator/scope/data_initializer.c b/source/ast-translator/scope/data_initializer.c
index 45779c8..59fbe3b 100644
--- a/source/ast-translator/scope/data_initializer.c
+++ b/source/ast-translator/scope/data_initializer.c
@@ -165,7 +165,7 @@ static kefir_result_t visit_value(const struct kefir_ast_designator *designator,
     struct kefir_ast_constant_expression_value uncasted_value, value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, expression, &uncasted_value));
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value, expression,
-                                                        resolved_layout->type));
+                                                        expression->properties.type, resolved_layout->type));
     struct kefir_ir_typeentry *target_typeentry = kefir_ir_type_at(param->type, resolved_layout->value);
     REQUIRE(target_typeentry != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Cannot obtain target IR type entry"));
     switch (value.klass) {
diff --git a/source/ast/analyzer/nodes/case_statement.c b/source/ast/analyzer/nodes/case_statement.c
index 9828393..0741787 100644
--- a/source/ast/analyzer/nodes/case_statement.c
+++ b/source/ast/analyzer/nodes/case_statement.c
@@ -75,7 +75,7 @@ kefir_result_t kefir_ast_analyze_case_statement_node(struct kefir_mem *mem, cons
         struct kefir_ast_constant_expression_value converted_value = value;
         if (switch_statement->value.switchStatement.controlling_expression_type != NULL) {
             REQUIRE_OK(kefir_ast_constant_expression_value_cast(
-                mem, context, &converted_value, &value, node->expression,
+                mem, context, &converted_value, &value, node->expression, node->expression->properties.type,
                 switch_statement->value.switchStatement.controlling_expression_type));
         }
         struct kefir_ast_flow_control_point *point = kefir_ast_flow_control_point_alloc(mem, direct_parent);
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index 56acce4..eb1e1d1 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -118,6 +118,17 @@ static kefir_result_t evaluate_pointer_diff(struct kefir_mem *mem, const struct
     return KEFIR_OK;
 }
 
+static kefir_result_t convert_operand(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                      const struct kefir_ast_node_base *operand, const struct kefir_ast_type *type,
+                                      struct kefir_ast_constant_expression_value *value) {
+    if (value->klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
+        const struct kefir_ast_constant_expression_value original = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &original, operand,
+                                                            operand->properties.type, type));
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         const struct kefir_ast_binary_operation *node,
                                                         struct kefir_ast_constant_expression_value *value) {
@@ -133,12 +144,19 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
                                    "Expected constant expression AST node"));
 
+    const kefir_bool_t shift =
+        node->type == KEFIR_AST_OPERATION_SHIFT_LEFT || node->type == KEFIR_AST_OPERATION_SHIFT_RIGHT;
+    const struct kefir_ast_type *common_arith_type = NULL;
     kefir_bool_t common_type_signed_integer = false;
     if (KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->arg1->properties.type) &&
         KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->arg2->properties.type)) {
-        const struct kefir_ast_type *common_arith_type = kefir_ast_type_common_arithmetic(
-            context->type_traits, node->arg1->properties.type, node->arg1->properties.expression_props.bitfield_props,
-            node->arg2->properties.type, node->arg2->properties.expression_props.bitfield_props);
+        common_arith_type =
+            shift ? kefir_ast_type_int_promotion(context->type_traits, node->arg1->properties.type,
+                                                 node->arg1->properties.expression_props.bitfield_props)
+                  : kefir_ast_type_common_arithmetic(context->type_traits, node->arg1->properties.type,
+                                                     node->arg1->properties.expression_props.bitfield_props,
+                                                     node->arg2->properties.type,
+                                                     node->arg2->properties.expression_props.bitfield_props);
         REQUIRE(common_arith_type != NULL,
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to determine common arithmetic type"));
         if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(common_arith_type)) {
@@ -150,7 +168,12 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg1, &arg1_value));
     if (node->type != KEFIR_AST_OPERATION_LOGICAL_AND && node->type != KEFIR_AST_OPERATION_LOGICAL_OR) {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg2, &arg2_value));
+        if (common_arith_type != NULL && !shift) {
+            REQUIRE_OK(convert_operand(mem, context, node->arg1, common_arith_type, &arg1_value));
+            REQUIRE_OK(convert_operand(mem, context, node->arg2, common_arith_type, &arg2_value));
+        }
     }
+
     switch (node->type) {
         case KEFIR_AST_OPERATION_ADD:
             if (arg1_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
@@ -164,7 +187,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 value->floating_point = as_float(&arg1_value) + as_float(&arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer + arg2_value.integer;
+                value->uinteger = arg1_value.uinteger + arg2_value.uinteger;
             }
             break;
 
@@ -186,7 +209,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 value->floating_point = as_float(&arg1_value) - as_float(&arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer - arg2_value.integer;
+                value->uinteger = arg1_value.uinteger - arg2_value.uinteger;
             }
             break;
 
@@ -196,7 +219,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 value->floating_point = as_float(&arg1_value) * as_float(&arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer * arg2_value.integer;
+                value->uinteger = arg1_value.uinteger * arg2_value.uinteger;
             }
             break;
 
@@ -240,7 +263,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
         case KEFIR_AST_OPERATION_SHIFT_LEFT:
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
             if (common_type_signed_integer) {
-                value->integer = arg1_value.integer << arg2_value.integer;
+                value->integer = (kefir_int64_t) (arg1_value.uinteger << arg2_value.integer);
             } else {
                 value->uinteger = arg1_value.uinteger << arg2_value.integer;
             }
@@ -408,5 +431,11 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             value->integer = arg1_bool || arg2_bool;
         } break;
     }
+
+    if (common_arith_type != NULL && value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER) {
+        const struct kefir_ast_constant_expression_value original = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &original, KEFIR_AST_NODE_BASE(node),
+                                                            node->base.properties.type, node->base.properties.type));
+    }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/cast_operator.c b/source/ast/constant_expression/cast_operator.c
index 45f848f..0555821 100644
--- a/source/ast/constant_expression/cast_operator.c
+++ b/source/ast/constant_expression/cast_operator.c
@@ -85,10 +85,37 @@ static kefir_result_t cast_integral_type(struct kefir_mem *mem, const struct kef
     return KEFIR_OK;
 }
 
+static kefir_result_t source_is_unsigned(const struct kefir_ast_context *context, const struct kefir_ast_type *type,
+                                         kefir_bool_t *is_unsigned) {
+    const struct kefir_ast_type *unqualified = kefir_ast_unqualified_type(type);
+    *is_unsigned = false;
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified)) {
+        kefir_bool_t is_signed = true;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, unqualified, &is_signed));
+        *is_unsigned = !is_signed;
+    }
+    return KEFIR_OK;
+}
+
+static kefir_ast_constant_expression_float_t round_float(const struct kefir_ast_type *type,
+                                                         kefir_ast_constant_expression_float_t source) {
+    switch (type->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            return (kefir_float32_t) source;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            return (kefir_float64_t) source;
+
+        default:
+            return source;
+    }
+}
+
 kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         struct kefir_ast_constant_expression_value *value,
                                                         const struct kefir_ast_constant_expression_value *source,
                                                         const struct kefir_ast_node_base *node,
+                                                        const struct kefir_ast_type *source_type,
                                                         const struct kefir_ast_type *type) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST context"));
@@ -97,8 +124,10 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     REQUIRE(source != NULL,
             KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST constant expression value"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid base AST node"));
+    REQUIRE(source_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST type"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination AST type"));
 
+    kefir_bool_t unsigned_integer = false;
     const struct kefir_ast_type *unqualified = kefir_ast_unqualified_type(type);
     if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified)) {
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
@@ -111,8 +140,13 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
                 if (unqualified->tag == KEFIR_AST_TYPE_SCALAR_BOOL) {
                     value->integer = (bool) source->floating_point;
                 } else {
-                    REQUIRE_OK(cast_integral_type(mem, context, unqualified, value,
-                                                  (kefir_ast_constant_expression_int_t) source->floating_point));
+                    REQUIRE_OK(source_is_unsigned(context, unqualified, &unsigned_integer));
+                    REQUIRE_OK(cast_integral_type(
+                        mem, context, unqualified, value,
+                        unsigned_integer && source->floating_point > 0
+                            ? (kefir_ast_constant_expression_int_t) (kefir_ast_constant_expression_uint_t)
+                                  source->floating_point
+                            : (kefir_ast_constant_expression_int_t) source->floating_point));
                 }
                 break;
 
@@ -129,11 +163,17 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
         switch (source->klass) {
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER:
-                value->floating_point = (kefir_ast_constant_expression_float_t) source->integer;
+                REQUIRE_OK(source_is_unsigned(context, source_type, &unsigned_integer));
+                value->floating_point =
+                    round_float(unqualified, unsigned_integer
+                                                 ? (kefir_ast_constant_expression_float_t) source->uinteger
+                                                 : (kefir_ast_constant_expression_float_t) source->integer);
                 break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
-                value->floating_point = source->floating_point;
+                value->floating_point = unqualified->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE
+                                            ? (kefir_float64_t) source->floating_point
+                                            : source->floating_point;
                 break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS:
@@ -194,6 +234,6 @@ kefir_result_t kefir_ast_evaluate_cast_operator_node(struct kefir_mem *mem, cons
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr, &arg_value));
 
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, KEFIR_AST_NODE_BASE(node),
-                                                        node->base.properties.type));
+                                                        node->expr->properties.type, node->base.properties.type));
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/conditional_operator.c b/source/ast/constant_expression/conditional_operator.c
index 504dc2f..8d4460e 100644
--- a/source/ast/constant_expression/conditional_operator.c
+++ b/source/ast/constant_expression/conditional_operator.c
@@ -23,6 +23,21 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t convert_result(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                     const struct kefir_ast_conditional_operator *node,
+                                     const struct kefir_ast_node_base *arm,
+                                     const struct kefir_ast_constant_expression_value *arm_value,
+                                     struct kefir_ast_constant_expression_value *value) {
+    const struct kefir_ast_type *result_type = kefir_ast_unqualified_type(node->base.properties.type);
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(result_type)) {
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, arm_value, arm, arm->properties.type,
+                                                            result_type));
+    } else {
+        *value = *arm_value;
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *mem,
                                                             const struct kefir_ast_context *context,
                                                             const struct kefir_ast_conditional_operator *node,
@@ -72,13 +87,13 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
     if (condition) {
         if (node->expr1 != NULL) {
             REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr1, &arg1_value));
-            *value = arg1_value;
+            REQUIRE_OK(convert_result(mem, context, node, node->expr1, &arg1_value, value));
         } else {
-            *value = cond_value;
+            REQUIRE_OK(convert_result(mem, context, node, node->condition, &cond_value, value));
         }
     } else {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr2, &arg2_value));
-        *value = arg2_value;
+        REQUIRE_OK(convert_result(mem, context, node, node->expr2, &arg2_value, value));
     }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/unary_operation.c b/source/ast/constant_expression/unary_operation.c
index e97e3b5..1475843 100644
--- a/source/ast/constant_expression/unary_operation.c
+++ b/source/ast/constant_expression/unary_operation.c
@@ -47,6 +47,14 @@ static kefir_result_t unwrap_vla_type(struct kefir_mem *mem, const struct kefir_
     return KEFIR_OK;
 }
 
+static kefir_result_t normalize_result(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                       const struct kefir_ast_unary_operation *node,
+                                       struct kefir_ast_constant_expression_value *value) {
+    const struct kefir_ast_constant_expression_value original = *value;
+    return kefir_ast_constant_expression_value_cast(mem, context, value, &original, KEFIR_AST_NODE_BASE(node),
+                                                    node->base.properties.type, node->base.properties.type);
+}
+
 kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                        const struct kefir_ast_unary_operation *node,
                                                        struct kefir_ast_constant_expression_value *value) {
@@ -82,7 +90,8 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg, &arg_value));
             if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = -arg_value.integer;
+                value->integer = -arg_value.uinteger;
+                REQUIRE_OK(normalize_result(mem, context, node, value));
             } else if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
                 value->floating_point = -arg_value.floating_point;
@@ -97,6 +106,7 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
                 value->integer = ~arg_value.integer;
+                REQUIRE_OK(normalize_result(mem, context, node, value));
             } else {
                 return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                               "Expected integeral constant expression");
-- 
2.43.0


From d94d2e34e0504d84fe73ed0550c75f97a550c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:32 +0000
Subject: [PATCH 30/43] fix: accept postfix operators after a compound literal

---
 source/parser/rules/postfix_expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/rules/postfix_expression.c b/source/parser/rules/postfix_expression.c
index 66c1624..ddf845e 100644
--- a/source/parser/rules/postfix_expression.c
+++ b/source/parser/rules/postfix_expression.c
@@ -162,8 +162,8 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
         if (res == KEFIR_NO_MATCH) {
             res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(builder->parser, primary_expression),
                                                 NULL);
-            REQUIRE_CHAIN(&res, scan_postfixes(mem, builder));
         }
+        REQUIRE_CHAIN(&res, scan_postfixes(mem, builder));
     }
     REQUIRE_OK(res);
     return KEFIR_OK;
-- 
2.43.0


From f7b76b590365fd9b3f6382a8e78f9ff4737c254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:57 +0000
Subject: [PATCH 31/43] fix: reject a trailing comma in argument lists

---
 source/parser/rules/postfix_expression.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/parser/rules/postfix_expression.c b/source/parser/rules/postfix_expression.c
index ddf845e..3f6581b 100644
--- a/source/parser/rules/postfix_expression.c
+++ b/source/parser/rules/postfix_expression.c
@@ -49,6 +49,9 @@ static kefir_result_t scan_argument_list(struct kefir_mem *mem, struct kefir_par
 
         if (PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_COMMA)) {
             REQUIRE_OK(PARSER_SHIFT(builder->parser));
+            REQUIRE(!PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE),
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(builder->parser, 0),
+                                           "Expected argument after comma"));
         } else {
             REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(builder->parser, 0),
@@ -130,6 +133,9 @@ static kefir_result_t scan_builtin(struct kefir_mem *mem, struct kefir_parser_as
 
         if (PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_COMMA)) {
             REQUIRE_OK(PARSER_SHIFT(builder->parser));
+            REQUIRE(!PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE),
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(builder->parser, 0),
+                                           "Expected argument after comma"));
         } else {
             REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(builder->parser, 0),
-- 
2.43.0


From 1152d5ca5acc032865c1d504b9d179297f9eaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:02 +0000
Subject: [PATCH 32/43] fix: compare union members with the members of the
 other union type

---
 source/ast/type/struct.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/type/struct.c b/source/ast/type/struct.c
index 7063d9a..51b6c5f 100644
--- a/source/ast/type/struct.c
+++ b/source/ast/type/struct.c
@@ -175,7 +175,7 @@ static kefir_bool_t compatible_union_types(const struct kefir_ast_type_traits *t
 
             if (field1->identifier != NULL) {
                 struct kefir_hashtree_node *node2 = NULL;
-                kefir_result_t res = kefir_hashtree_at(&type1->structure_type.field_index,
+                kefir_result_t res = kefir_hashtree_at(&type2->structure_type.field_index,
                                                        (kefir_hashtree_key_t) field1->identifier, &node2);
                 REQUIRE(res == KEFIR_OK, false);
                 ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, node2->value);
@@ -235,7 +235,7 @@ const struct kefir_ast_type *composite_union_types(struct kefir_mem *mem, struct
             const struct kefir_ast_struct_field *field2 = NULL;
             if (field1->identifier != NULL) {
                 struct kefir_hashtree_node *node2 = NULL;
-                res = kefir_hashtree_at(&type1->structure_type.field_index, (kefir_hashtree_key_t) field1->identifier,
+                res = kefir_hashtree_at(&type2->structure_type.field_index, (kefir_hashtree_key_t) field1->identifier,
                                         &node2);
                 REQUIRE(res == KEFIR_OK, NULL);
                 field2 = (const struct kefir_ast_struct_field *) node2->value;
-- 
2.43.0


From bcd7cdef935a805a8b9b4dca695cd6ed46e1a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 33/43] fix: do not dereference the missing width when only one
 of two members is a bit-field

---
 source/ast/type/struct.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/source/ast/type/struct.c b/source/ast/type/struct.c
index 51b6c5f..a190da8 100644
--- a/source/ast/type/struct.c
+++ b/source/ast/type/struct.c
@@ -31,6 +31,12 @@ static kefir_bool_t strings_same(const char *str1, const char *str2) {
     }
 }
 
+static kefir_bool_t same_bitfield(const struct kefir_ast_struct_field *field1,
+                                  const struct kefir_ast_struct_field *field2) {
+    REQUIRE(field1->bitfield == field2->bitfield, false);
+    return !field1->bitfield || field1->bitwidth->value.integer == field2->bitwidth->value.integer;
+}
+
 static kefir_bool_t same_structure_type(const struct kefir_ast_type *type1, const struct kefir_ast_type *type2) {
     REQUIRE(type1 != NULL, false);
     REQUIRE(type2 != NULL, false);
@@ -47,9 +53,7 @@ static kefir_bool_t same_structure_type(const struct kefir_ast_type *type1, cons
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, iter2->value);
             REQUIRE(strings_same(field1->identifier, field2->identifier), false);
             REQUIRE(field1->alignment->value == field2->alignment->value, false);
-            REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                        (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                    false);
+            REQUIRE(same_bitfield(field1, field2), false);
             REQUIRE(KEFIR_AST_TYPE_SAME(field1->type, field2->type), false);
         }
     }
@@ -72,9 +76,7 @@ static kefir_bool_t compatible_structure_types(const struct kefir_ast_type_trait
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, iter2->value);
             REQUIRE(strings_same(field1->identifier, field2->identifier), false);
             REQUIRE(field1->alignment->value == field2->alignment->value, false);
-            REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                        (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                    false);
+            REQUIRE(same_bitfield(field1, field2), false);
             REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type), false);
         }
     }
@@ -149,9 +151,7 @@ static kefir_bool_t same_union_type(const struct kefir_ast_type *type1, const st
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field1, node1->value);
             ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, node2->value);
             REQUIRE(strings_same(field1->identifier, field2->identifier), false);
-            REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                        (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                    false);
+            REQUIRE(same_bitfield(field1, field2), false);
             REQUIRE(KEFIR_AST_TYPE_SAME(field1->type, field2->type), false);
         }
         for (const struct kefir_hashtree_node *node2 = kefir_hashtree_iter(&type2->structure_type.field_index, &iter);
@@ -180,9 +180,7 @@ static kefir_bool_t compatible_union_types(const struct kefir_ast_type_traits *t
                 REQUIRE(res == KEFIR_OK, false);
                 ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field2, node2->value);
 
-                REQUIRE((!field1->bitfield && !field2->bitfield) ||
-                            (field1->bitwidth->value.integer == field2->bitwidth->value.integer),
-                        false);
+                REQUIRE(same_bitfield(field1, field2), false);
                 REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type), false);
             } else {
                 kefir_bool_t found_match = false;
@@ -193,8 +191,7 @@ static kefir_bool_t compatible_union_types(const struct kefir_ast_type_traits *t
                         continue;
                     }
 
-                    found_match = ((!field1->bitfield && !field2->bitfield) ||
-                                   (field1->bitwidth->value.integer == field2->bitwidth->value.integer)) &&
+                    found_match = same_bitfield(field1, field2) &&
                                   KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type);
                 }
 
@@ -245,8 +242,7 @@ const struct kefir_ast_type *composite_union_types(struct kefir_mem *mem, struct
                     field2 = iter2->value;
 
                     if (field2->identifier != NULL ||
-                        !(((!field1->bitfield && !field2->bitfield) ||
-                           (field1->bitwidth->value.integer == field2->bitwidth->value.integer)) &&
+                        !(same_bitfield(field1, field2) &&
                           KEFIR_AST_TYPE_COMPATIBLE(type_traits, field1->type, field2->type))) {
                         field2 = NULL;
                     }
-- 
2.43.0


From be8cff4fa6467d9a0b00f2fb9690949c401cadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 34/43] fix: comparing a tagged enumeration type with an
 anonymous one

---
 source/ast/type/enum.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/ast/type/enum.c b/source/ast/type/enum.c
index ea060f3..8baddb3 100644
--- a/source/ast/type/enum.c
+++ b/source/ast/type/enum.c
@@ -43,7 +43,8 @@ static kefir_bool_t same_enumeration_type(const struct kefir_ast_type *type1, co
     REQUIRE(type1->tag == KEFIR_AST_TYPE_ENUMERATION && type2->tag == KEFIR_AST_TYPE_ENUMERATION, false);
     REQUIRE(type1->enumeration_type.complete == type2->enumeration_type.complete, false);
     REQUIRE((type1->enumeration_type.identifier == NULL && type2->enumeration_type.identifier == NULL) ||
-                strcmp(type1->enumeration_type.identifier, type2->enumeration_type.identifier) == 0,
+                (type1->enumeration_type.identifier != NULL && type2->enumeration_type.identifier != NULL &&
+                 strcmp(type1->enumeration_type.identifier, type2->enumeration_type.identifier) == 0),
             false);
     if (type1->enumeration_type.complete) {
         REQUIRE(kefir_list_length(&type1->enumeration_type.enumerators) ==
@@ -83,7 +84,8 @@ static kefir_bool_t compatible_enumeration_types(const struct kefir_ast_type_tra
     }
     REQUIRE(type1->tag == KEFIR_AST_TYPE_ENUMERATION && type2->tag == KEFIR_AST_TYPE_ENUMERATION, false);
     REQUIRE((type1->enumeration_type.identifier == NULL && type2->enumeration_type.identifier == NULL) ||
-                strcmp(type1->enumeration_type.identifier, type2->enumeration_type.identifier) == 0,
+                (type1->enumeration_type.identifier != NULL && type2->enumeration_type.identifier != NULL &&
+                 strcmp(type1->enumeration_type.identifier, type2->enumeration_type.identifier) == 0),
             false);
     if (type1->enumeration_type.complete && type2->enumeration_type.complete) {
         REQUIRE(kefir_list_length(&type1->enumeration_type.enumerators) ==
-- 
2.43.0


From beac65091e776b08af52b715f4d3b21f1d2591a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 35/43] fix: a variadic prototype is not compatible with an
 empty parameter list in either order

---
 source/ast/type/function.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ast/type/function.c b/source/ast/type/function.c
index 39e474d..0ae4542 100644
--- a/source/ast/type/function.c
+++ b/source/ast/type/function.c
@@ -167,7 +167,7 @@ static kefir_bool_t compatible_function_types(const struct kefir_ast_type_traits
         REQUIRE(!type1->function_type.ellipsis, false);
         return parameter_list_unaffected_by_promotions(type_traits, type1);
     } else if (type2->function_type.mode == KEFIR_AST_FUNCTION_TYPE_PARAMETERS) {
-        REQUIRE(!type1->function_type.ellipsis, false);
+        REQUIRE(!type2->function_type.ellipsis, false);
         return parameter_list_unaffected_by_promotions(type_traits, type2);
     } else {
         return true;
-- 
2.43.0


From aafd82000cc296c26271b40d54660b0ac0d390fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 36/43] fix: composite of function types whose return types
 differ only in qualifiers

---
 source/ast/type/function.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/ast/type/function.c b/source/ast/type/function.c
index 0ae4542..8e4c8a2 100644
--- a/source/ast/type/function.c
+++ b/source/ast/type/function.c
@@ -186,7 +186,8 @@ const struct kefir_ast_type *composite_function_types(struct kefir_mem *mem, str
     if (type1->function_type.mode == KEFIR_AST_FUNCTION_TYPE_PARAMETERS &&
         type2->function_type.mode == KEFIR_AST_FUNCTION_TYPE_PARAMETERS) {
         const struct kefir_ast_type *composite_return_type = KEFIR_AST_TYPE_COMPOSITE(
-            mem, type_bundle, type_traits, type1->function_type.return_type, type2->function_type.return_type);
+            mem, type_bundle, type_traits, kefir_ast_unqualified_type(type1->function_type.return_type),
+            kefir_ast_unqualified_type(type2->function_type.return_type));
         REQUIRE(composite_return_type != NULL, NULL);
         struct kefir_ast_function_type *composite_function = NULL;
         const struct kefir_ast_type *composite_type =
-- 
2.43.0


From 991945e42441d35b1725e937f8a4c7ffb3b60ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 37/43] fix: type specifier sequences are accepted in any order
 and duplicates of int rejected

---
 source/ast/analyzer/declarator.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 5c2cde3..c744b5f 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -320,7 +320,7 @@ enum type_specifier_sequence_state {
 
 static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                    enum signedness *signedness, enum type_specifier_sequence_state *seq_state,
-                                   const struct kefir_ast_type **base_type,
+                                   kefir_bool_t *int_specifier, const struct kefir_ast_type **base_type,
                                    const struct kefir_ast_declarator_specifier *decl_specifier,
                                    kefir_bool_t function_definition_context) {
     const struct kefir_ast_type_specifier *specifier = &decl_specifier->type_specifier;
@@ -347,9 +347,12 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                            "Cannot combine type specifiers with referenced type definition"));
             *base_type = kefir_ast_type_signed_short();
+            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_INT:
+            REQUIRE(!*int_specifier, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
+                                                            "Duplicate int type specifier is not permitted"));
             REQUIRE(*seq_state != TYPE_SPECIFIER_SEQUENCE_TYPEDEF,
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                            "Cannot combine type specifiers with referenced type definition"));
@@ -362,6 +365,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                                "Int type specifier can only be combined with short or long"));
             }
+            *int_specifier = true;
             *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
             break;
 
@@ -371,6 +375,8 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                                            "Cannot combine type specifiers with referenced type definition"));
             if (*base_type != NULL && (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG) {
                 *base_type = kefir_ast_type_signed_long_long();
+            } else if (*base_type != NULL && (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {
+                *base_type = kefir_ast_type_long_double();
             } else {
                 REQUIRE((*base_type) == NULL || (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_INT,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
@@ -397,7 +403,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
             if ((*base_type) == NULL) {
                 *base_type = kefir_ast_type_double();
             } else {
-                REQUIRE((*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG,
+                REQUIRE((*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG && !*int_specifier,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                                "Double type specifier can only be combined with complex and long"));
                 *base_type = kefir_ast_type_long_double();
@@ -960,6 +966,7 @@ static kefir_result_t analyze_declaration_specifiers_impl(
     kefir_ast_function_specifier_t *function, kefir_size_t *alignment) {
     enum signedness signedness = SIGNEDNESS_DEFAULT;
     enum type_specifier_sequence_state seq_state = TYPE_SPECIFIER_SEQUENCE_EMPTY;
+    kefir_bool_t int_specifier = false;
     const struct kefir_ast_type *base_type = NULL;
     struct kefir_ast_type_qualification qualification = {false};
     kefir_ast_scoped_identifier_storage_t storage_class = KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_UNKNOWN;
@@ -971,8 +978,8 @@ static kefir_result_t analyze_declaration_specifiers_impl(
          iter != NULL; kefir_ast_declarator_specifier_list_next(&iter, &declatator_specifier)) {
         switch (declatator_specifier->klass) {
             case KEFIR_AST_TYPE_SPECIFIER:
-                REQUIRE_OK(resolve_type(mem, context, &signedness, &seq_state, &base_type, declatator_specifier,
-                                        function_definition_context));
+                REQUIRE_OK(resolve_type(mem, context, &signedness, &seq_state, &int_specifier, &base_type,
+                                        declatator_specifier, function_definition_context));
                 break;
 
             case KEFIR_AST_TYPE_QUALIFIER:
-- 
2.43.0


From 695d326388cb749bbf173d1292c2a308389f5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:37 +0000
Subject: [PATCH 38/43] fix: diagnose #else or #elif after #else

---
 source/preprocessor/preprocessor.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index 5545f4b..aca786c 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -228,7 +228,7 @@ kefir_result_t kefir_preprocessor_skip_group(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL };
+enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL, IF_CONDITION_ELSE };
 
 static kefir_result_t process_include(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                       struct kefir_token_buffer *buffer,
@@ -532,10 +532,14 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
                     kefir_preprocessor_directive_scanner_restore(&preprocessor->directive_scanner, scanner_state));
                 *scan_directives = false;
             } else if (*condition_state == IF_CONDITION_FAIL) {
-                *condition_state = IF_CONDITION_SUCCESS;
+                *condition_state = IF_CONDITION_ELSE;
                 REQUIRE_OK(flush_group_buffer(mem, preprocessor, buffer, group_buffer));
                 REQUIRE_OK(kefir_preprocessor_run_group(mem, preprocessor, buffer));
             } else {
+                REQUIRE(*condition_state != IF_CONDITION_ELSE,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location,
+                                               "Unexpected #else directive after #else"));
+                *condition_state = IF_CONDITION_ELSE;
                 REQUIRE_OK(kefir_preprocessor_skip_group(mem, preprocessor));
             }
             break;
@@ -546,6 +550,9 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
             break;
 
         case KEFIR_PREPROCESSOR_DIRECTIVE_ELIF:
+            REQUIRE(*condition_state != IF_CONDITION_ELSE,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location,
+                                           "Unexpected #elif directive after #else"));
             REQUIRE_OK(flush_group_buffer(mem, preprocessor, buffer, group_buffer));
             REQUIRE_OK(
                 process_elif(mem, preprocessor, directive, condition_state, scan_directives, buffer, scanner_state));
-- 
2.43.0


From 1bce784c365ee84f1e989ef5e9fa4e52767b80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:37 +0000
Subject: [PATCH 39/43] fix: diagnose an initializer in a type definition

---
 source/ast/global_context.c | 3 +++
 source/ast/local_context.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/ast/global_context.c b/source/ast/global_context.c
index 7f7c0b9..e4c8e39 100644
--- a/source/ast/global_context.c
+++ b/source/ast/global_context.c
@@ -175,6 +175,9 @@ static kefir_result_t context_define_identifier(
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_TYPEDEF:
                 REQUIRE(alignment == NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                                                   "Alignment cannot be specifier to type definitions"));
+                REQUIRE(initializer == NULL,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
+                                               "Initializer is not permitted in type definition"));
                 REQUIRE_OK(
                     kefir_ast_global_context_define_type(mem, global_ctx, identifier, type, location, scoped_id));
                 break;
diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index a63825f..0fe8b56 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -220,6 +220,9 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(alignment == NULL,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                                "Alignment specifier is not permitted in type definition"));
+                REQUIRE(initializer == NULL,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
+                                               "Initializer is not permitted in type definition"));
                 REQUIRE_OK(kefir_ast_local_context_define_type(mem, local_ctx, identifier, type, location, scoped_id));
                 break;
 
-- 
2.43.0


From 3a7e6f06c66806b831b6973ced127d38be5b0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:37 +0000
Subject: [PATCH 40/43] fix: block scope extern _Thread_local declarations
 refer to the thread-local object

---
 source/ast/local_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 0fe8b56..4fabdc2 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -243,8 +243,8 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(declaration, KEFIR_SET_SOURCE_ERROR(
                                          KEFIR_ANALYSIS_ERROR, location,
                                          "External thread local identifier in block scope cannot have initializer"));
-                REQUIRE_OK(kefir_ast_local_context_declare_external(mem, local_ctx, identifier, type, alignment,
-                                                                    location, scoped_id));
+                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(mem, local_ctx, identifier, type,
+                                                                                 alignment, location, scoped_id));
                 break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL:
-- 
2.43.0


From c5321d8c7718e7e6b32ffd1e6055110734f2fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 41/43] fix: a punctuator is matched by its longest valid
 spelling

'..', '..x' or '%:%x' failed to tokenize because a failed deeper match was
reported instead of falling back to the shorter punctuator.
---
 source/lexer/tokens/punctuator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lexer/tokens/punctuator.c b/source/lexer/tokens/punctuator.c
index a593f38..d3a2c4e 100644
--- a/source/lexer/tokens/punctuator.c
+++ b/source/lexer/tokens/punctuator.c
@@ -131,8 +131,11 @@ static kefir_result_t match_punctuator(struct kefir_lexer_source_cursor *cursor,
     REQUIRE_OK(kefir_trie_at(trie, (kefir_trie_key_t) kefir_lexer_source_cursor_at(cursor, 0), &vertex));
     REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
 
+    struct kefir_lexer_source_cursor_state state;
+    REQUIRE_OK(kefir_lexer_source_cursor_save(cursor, &state));
     kefir_result_t res = match_punctuator(cursor, &vertex->node, token);
-    if (res == KEFIR_NOT_FOUND) {
+    if (res == KEFIR_NOT_FOUND || res == KEFIR_NO_MATCH) {
+        REQUIRE_OK(kefir_lexer_source_cursor_restore(cursor, &state));
         REQUIRE(vertex->node.value != PUNCTUATOR_NONE, KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match punctuator"));
         REQUIRE_OK(kefir_token_new_punctuator((kefir_punctuator_token_t) vertex->node.value, token));
     } else {
-- 
2.43.0


From 1cd9c6c422bf94a3b4de352cad8c8de205514807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 42/43] fix: reject integer constants that do not fit 64 bits
 instead of wrapping them

---
 source/lexer/tokens/integer_constant.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/lexer/tokens/integer_constant.c b/source/lexer/tokens/integer_constant.c
index be67a6c..56a07fa 100644
--- a/source/lexer/tokens/integer_constant.c
+++ b/source/lexer/tokens/integer_constant.c
@@ -155,6 +155,13 @@ static kefir_result_t build_integral_constant(const struct kefir_lexer_context *
     return KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Provided constant exceeds maximum value of its type");
 }
 
+static kefir_result_t append_digit(kefir_uint64_t *value, kefir_uint64_t base, kefir_uint64_t digit) {
+    REQUIRE(*value <= (KEFIR_UINT64_MAX - digit) / base,
+            KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Integer constant exceeds maximum representable value"));
+    *value = *value * base + digit;
+    return KEFIR_OK;
+}
+
 static kefir_result_t next_decimal_constant(struct kefir_lexer_source_cursor *cursor, kefir_uint64_t *value) {
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
     REQUIRE(kefir_isdigit32(chr) && chr != U'0',
@@ -162,8 +169,7 @@ static kefir_result_t next_decimal_constant(struct kefir_lexer_source_cursor *cu
 
     *value = 0;
     for (; kefir_isdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
-        *value *= 10;
-        *value += chr - U'0';
+        REQUIRE_OK(append_digit(value, 10, chr - U'0'));
         REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
@@ -179,8 +185,7 @@ static kefir_result_t next_hexadecimal_constant(struct kefir_lexer_source_cursor
 
     *value = 0;
     for (; kefir_ishexdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
-        *value <<= 4;
-        *value += kefir_hex32todec(chr);
+        REQUIRE_OK(append_digit(value, 16, kefir_hex32todec(chr)));
         REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
@@ -192,8 +197,7 @@ static kefir_result_t next_octal_constant(struct kefir_lexer_source_cursor *curs
 
     *value = 0;
     for (; kefir_isoctdigit32(chr); chr = kefir_lexer_source_cursor_at(cursor, 0)) {
-        *value <<= 3;
-        *value += chr - U'0';
+        REQUIRE_OK(append_digit(value, 8, chr - U'0'));
         REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
     return KEFIR_OK;
-- 
2.43.0


From b91f368f02f9b178635e5f718c17a7f9dec92499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 43/43] fix: require the exponent of hexadecimal floating
 constants

---
 source/lexer/tokens/floating_constant.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lexer/tokens/floating_constant.c b/source/lexer/tokens/floating_constant.c
index 8ce39d5..90f21ca 100644
--- a/source/lexer/tokens/floating_constant.c
+++ b/source/lexer/tokens/floating_constant.c
@@ -183,7 +183,8 @@ static kefir_result_t match_hexadecimal_fractional_part(struct kefir_mem *mem, s
 static kefir_result_t match_hexadecimal_exponent(struct kefir_mem *mem, struct kefir_lexer_source_cursor *cursor,
                                                  struct kefir_string_buffer *strbuf) {
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    REQUIRE(chr == U'p' || chr == U'P', KEFIR_OK);
+    REQUIRE(chr == U'p' || chr == U'P', KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location,
+                                                               "Expected hexadecimal floating constant exponent"));
     REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
     REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     chr = kefir_lexer_source_cursor_at(cursor, 0);
-- 
2.43.0

