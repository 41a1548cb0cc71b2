From d8116343c6d60068c844ad67d61ab19138d8841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 01/37] fix: allocate enough space for repeated substitutions
 in replace_m4

---
 src/template.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..9a205d2 100644
--- a/src/template.c
+++ b/src/template.c
@@ -25,15 +25,23 @@
 
 char *replace_m4(const char *orig, const struct string_list *args)
 {
-	size_t len_to_malloc = strlen(orig) + 1;
+	size_t max_arg_len = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		const size_t arg_len = strlen(cur->string);
+		if (arg_len > max_arg_len) {
+			max_arg_len = arg_len;
+		}
 		cur = cur->next;
 	}
+	size_t len_to_malloc = strlen(orig) + 1;
+	// an argument can be substituted any number of times
+	for (const char *pos = strchr(orig, '$'); pos; pos = strchr(pos + 1, '$')) {
+		len_to_malloc += max_arg_len;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
-	// arguments wasn't subtracted and not all args are necessarily substituted
+	// arguments wasn't subtracted and not all args are as long as the longest one
 	char *ret = malloc(len_to_malloc);
 	*ret = '\0';            // If the string is only a substitution that there is no argument for, we need to be terminated
 	const char *orig_pos = orig;
-- 
2.43.0


From 5124c328a06f31c97e01d96fe2edda767d3695e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 02/37] fix: do not crash on nested template calls without or
 with special arguments

replace_m4_list() dereferenced an empty argument list and left NULL strings
behind for arguments like $*.  add_template_declarations() leaked the names
of the enclosing templates if a substitution failed.
---
 src/template.c | 44 ++++++++++++++++++++++----------------------
 src/template.h |  3 ++-
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/template.c b/src/template.c
index 9a205d2..f56829c 100644
--- a/src/template.c
+++ b/src/template.c
@@ -83,19 +83,18 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
-	struct string_list *ret = calloc(1, sizeof(struct string_list));
-	struct string_list *cur = ret;
-
-	cur->string = replace_m4(replace_from->string, replace_with);
-	cur->next = NULL;
-	replace_from = replace_from->next;
-
-	while (replace_from) {
-		cur->next = calloc(1, sizeof(struct string_list));
-		cur = cur->next;
-		cur->string = replace_m4(replace_from->string, replace_with);
-		cur->next = NULL;
-		replace_from = replace_from->next;
+	struct string_list *ret = NULL;
+	struct string_list **tail = &ret;
+
+	for (; replace_from; replace_from = replace_from->next) {
+		char *new_string = replace_m4(replace_from->string, replace_with);
+		if (!new_string) {
+			// Not a numbered argument (e.g. "$*"), pass on unmodified
+			new_string = strdup(replace_from->string);
+		}
+		*tail = calloc(1, sizeof(struct string_list));
+		(*tail)->string = new_string;
+		tail = &(*tail)->next;
 	}
 	return ret;
 }
@@ -110,7 +109,6 @@ enum selint_error add_template_declarations(const char *template_name,
 	while (cur) {
 		if (strcmp(cur->string, template_name) == 0) {
 			// Loop
-			free_string_list(parent_temp_names);
 			return SELINT_IF_CALL_LOOP;
 		}
 		cur = cur->next;
@@ -123,16 +121,17 @@ enum selint_error add_template_declarations(const char *template_name,
 	const struct if_call_list *calls =
 		look_up_call_in_template_map(template_name);
 
+	enum selint_error res = SELINT_SUCCESS;
+
 	while (calls) {
 		struct string_list *new_args =
 			replace_m4_list(args, calls->call->args);
 
-		enum selint_error res =
-			add_template_declarations(calls->call->name, new_args, cur,
-			                          mod_name);
+		res = add_template_declarations(calls->call->name, new_args, cur,
+		                                mod_name);
 		free_string_list(new_args);
 		if (res != SELINT_SUCCESS) {
-			return res;
+			goto out;
 		}
 
 		calls = calls->next;
@@ -143,15 +142,16 @@ enum selint_error add_template_declarations(const char *template_name,
 	while (decls) {
 		char *new_decl = replace_m4(decls->decl->name, args);
 		if (!new_decl) {
-			free(cur->string);
-			free(cur);
-			return SELINT_M4_SUB_FAILURE;
+			res = SELINT_M4_SUB_FAILURE;
+			goto out;
 		}
 		insert_into_decl_map(new_decl, mod_name, decls->decl->flavor);
 		free(new_decl);
 		decls = decls->next;
 	}
+
+out:
 	free(cur->string);
 	free(cur);
-	return SELINT_SUCCESS;
+	return res;
 }
diff --git a/src/template.h b/src/template.h
index 24ff608..17cf7a8 100644
--- a/src/template.h
+++ b/src/template.h
@@ -26,7 +26,8 @@
 char *replace_m4(const char *orig, const struct string_list *args);
 
 /* Loop over replace_from string_list and call replace_m4 on each string in it, using the
- * strings in replace_with as the arguments. */
+ * strings in replace_with as the arguments.  Strings which cannot be replaced
+ * are copied unmodified. */
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from);
 
-- 
2.43.0


From bd5efc622aeb7b13bb36ad56bcab932903ff785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 03/37] fix: do not read past the end of strings in
 modules.conf

---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From 5945dedb4b6b71315a89903e70209ca8868db6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 04/37] fix: use the source of type transitions for their
 ordering section

The union member of av rules was used, in which the target takes the place of
the source.
---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..ce945a3 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -206,7 +206,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0


From 0231c180da05499ab7da387ec17889592d0b4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 05/37] fix: out of bounds accesses while parsing file context
 lines

A lone dash as object class and category sets shorter than the sensitivity
were read past their end.
---
 src/parse_fc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From f5ccb1300de6bfdf629a9c6eccd62a5df3731521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 06/37] fix: false errors for file contexts without
 gen_context()

The line ending became part of the type or range of raw contexts, and <<none>>
was only accepted if directly followed by a line ending.
---
 src/parse_fc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..e76c95f 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -32,6 +32,13 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
+	// Strip trailing whitespace, including the line ending, which would
+	// otherwise become a part of contexts without gen_context()
+	size_t line_len = strlen(line);
+	while (line_len > 0 && strchr(" \t\r\n", line[line_len - 1])) {
+		line[--line_len] = '\0';
+	}
+
 	char *orig_line = strdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
@@ -135,8 +142,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
-- 
2.43.0


From 7115866e76d8d0de0021ee08e71deff0fe954a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 07/37] fix: infinite recursion on permission macros referring
 to themselves

---
 src/perm_macro.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 46db881..315b800 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -160,7 +160,26 @@ static const struct pm_ltable pm_ltable_common_file[] = {
 unsigned short popcount(mask_t mask);
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended);
 
-static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+// the permission macros currently being expanded
+struct expansion {
+	const char *name;
+	const struct expansion *parent;
+};
+
+static void compute_perm_mask_expanding(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent);
+
+static bool is_being_expanded(const char *name, const struct expansion *cur)
+{
+	for (; cur; cur = cur->parent) {
+		if (0 == strcmp(name, cur->name)) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
+static void str_to_mask_expanding(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -171,8 +190,10 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	}
 
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
-	if (macro_perms) {
-		compute_perm_mask(macro_perms, mask_raw, mask_extended);
+	// treat macros referring to themselves as unknown
+	if (macro_perms && !is_being_expanded(permission, parent)) {
+		const struct expansion self = { permission, parent };
+		compute_perm_mask_expanding(macro_perms, mask_raw, mask_extended, &self);
 		return;
 	}
 
@@ -181,13 +202,23 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
-void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
+static void compute_perm_mask_expanding(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent)
 {
 	for (; permissions; permissions = permissions->next) {
-		str_to_mask(permissions->string, mask_raw, mask_extended);
+		str_to_mask_expanding(permissions->string, mask_raw, mask_extended, parent);
 	}
 }
 
+static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+{
+	str_to_mask_expanding(permission, mask_raw, mask_extended, NULL);
+}
+
+void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
+{
+	compute_perm_mask_expanding(permissions, mask_raw, mask_extended, NULL);
+}
+
 struct string_builder {
 	char *mem;
 	size_t len;
-- 
2.43.0


From cc51a3a0b1db9101938ddee38b0108f931d33fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 08/37] fix: leak of repeated permission macro definitions

---
 src/maps.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maps.c b/src/maps.c
index ab26f41..16887c2 100644
--- a/src/maps.c
+++ b/src/maps.c
@@ -498,6 +498,9 @@ void insert_into_permmacros_map(const char *name, struct string_list *permission
 		perm_macro->val = permissions;
 		HASH_ADD_KEYPTR(hh_permmacros, permmacros_map, perm_macro->key, strlen(perm_macro->key),
 		                perm_macro);
+	} else {
+		// the first definition wins
+		free_string_list(permissions);
 	}
 }
 
-- 
2.43.0


From 685bc43a48368d6615416823ee6d862428797181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 09/37] fix: default order of declarations in require blocks
 without a config

Without a configuration file all flavors other than types compared as equal, so
C-006 reported repeated declarations.  Also correct the documented default.
---
 selint.conf | 2 +-
 src/main.c  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/selint.conf b/selint.conf
index 83d455b..eaf1e92 100644
--- a/selint.conf
+++ b/selint.conf
@@ -57,7 +57,7 @@ ordering_rules = "refpolicy-lax"
 # The following six flavors must each be used exactly once:
 #   attribute, attribute_role, bool, class, role, type
 # If unset, this defaults to the following order:
-#ordering_requires = { bool, role, attribute_role, attribute, type, class }
+#ordering_requires = { bool, class, role, attribute_role, attribute, type }
 ordering_requires = { bool, attribute, attribute_role, type, class, role }
 
 # Whether to check the order (alphabetically) of requires of the same flavor when running check C-006
diff --git a/src/main.c b/src/main.c
index 84bad03..fc3df07 100644
--- a/src/main.c
+++ b/src/main.c
@@ -326,7 +326,13 @@ int main(int argc, char **argv)
 		}
 	}
 
-	struct config_check_data ccd = { ORDER_LAX, {}, true, true, NULL };
+	struct config_check_data ccd = {
+		ORDER_LAX,
+		{ DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE },
+		true,
+		true,
+		NULL
+	};
 
 	if (config_filename) {
 		char cfg_severity;
-- 
2.43.0


From ee252b9bb784cb597f8cca7a66e716f1bffbc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:17 +0000
Subject: [PATCH 10/37] fix: do not report an internal error for ifdefs in
 require blocks

---
 src/if_checks.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/if_checks.c b/src/if_checks.c
index 6af2785..c14322f 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -123,6 +123,11 @@ struct check_result *check_unordered_declaration_in_require(const struct
 
 	const struct declaration_data *prev_decl_data = NULL;
 	for (const struct policy_node *cur = child; cur; cur = cur->next) {
+		if (cur->flavor == NODE_IFDEF) {
+			// conditional declarations are not ordered
+			continue;
+		}
+
 		if (cur->flavor != NODE_DECL) {
 			return alloc_internal_error(
 				"Non declaration node in require block");
-- 
2.43.0


From 466e4e91eef706f1d4f70f672e5d75830443d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 11/37] fix: consider conditional declarations inside of
 require blocks

Names declared inside of an ifdef in a require block were reported as not
declared or not required.
---
 src/te_checks.c | 50 ++++++++++++++++++++++---------------------------
 src/tree.c      |  7 +++++--
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/te_checks.c b/src/te_checks.c
index cce2a5a..82786e0 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -373,38 +373,32 @@ struct check_result *check_perm_macro_available(__attribute__((unused)) const st
 
 // Helper for check_no_explicit_declaration.  Returns 1 is there is a require block
 // for name earlier in the file, and 0 otherwise
+static int is_declared_in_block(const struct policy_node *block, const char *name, enum decl_flavor flavor)
+{
+	for (const struct policy_node *cur = block->first_child; cur; cur = cur->next) {
+		if (cur->flavor == NODE_IFDEF && is_declared_in_block(cur, name, flavor)) {
+			return 1;
+		}
+		if (cur->flavor == NODE_DECL && cur->data.d_data->flavor == flavor) {
+			if (0 == strcmp(name, cur->data.d_data->name)) {
+				return 1;
+			}
+			// In requires these are types, not attributes
+			if (str_in_sl(name, cur->data.d_data->attrs)) {
+				return 1;
+			}
+		}
+	}
+	return 0;
+}
+
 static int has_require(const struct policy_node *node, const char *name, enum decl_flavor flavor)
 {
 	const struct policy_node *cur = node;
 	while (cur) {
-		if (cur->flavor == NODE_REQUIRE || cur->flavor == NODE_GEN_REQ) {
-			cur = cur->first_child;
-			while (1) {
-				if (cur->flavor == NODE_DECL && cur->data.d_data->flavor == flavor) {
-					if (0 == strcmp(name, cur->data.d_data->name)) {
-						return 1;
-					}
-					struct string_list *other_types = cur->data.d_data->attrs; // In requires these
-					                                                           // are types, not
-					                                                           // attributes
-					while (other_types) {
-						if (0 == strcmp(name, other_types->string)) {
-							return 1;
-						}
-						other_types = other_types->next;
-					}
-				}
-				if (cur->next) {
-					cur = cur->next;
-				} else {
-					break;
-				}
-			}
-			// Not found in this require block, keep going
-			cur = cur->parent;
-			if (!cur) {
-				break;
-			}
+		if ((cur->flavor == NODE_REQUIRE || cur->flavor == NODE_GEN_REQ) &&
+		    is_declared_in_block(cur, name, flavor)) {
+			return 1;
 		}
 		if (cur->prev) {
 			cur = cur->prev;
diff --git a/src/tree.c b/src/tree.c
index 67239bd..ad0d7b9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -311,10 +311,13 @@ struct string_list *get_names_required(const struct policy_node *node)
 	struct policy_node *cur = node->first_child;
 
 	while (cur) {
+		// conditional declarations are children of their ifdef
+		struct string_list *names = cur->first_child ? get_names_required(cur) : get_names_in_node(cur);
+
 		if (ret_cursor) {
-			ret_cursor->next = get_names_in_node(cur);
+			ret_cursor->next = names;
 		} else {
-			ret = ret_cursor = get_names_in_node(cur);
+			ret = ret_cursor = names;
 		}
 		while (ret_cursor && ret_cursor->next) {
 			ret_cursor = ret_cursor->next;
-- 
2.43.0


From e9bc853fd8786a9f84346a7b22c63ef1193b12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 12/37] fix: print unprintable characters in parse errors as
 unsigned

---
 src/parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index 9dce0af..496a5b8 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -1139,7 +1139,7 @@ static void yyerror(const YYLTYPE *locp, __attribute__((unused)) yyscan_t scanne
 				       color_error(), color_reset(),
 				       color_warning(), color_reset(),
 				       (size_t)(c - current_line + 1),
-				       *c);
+				       (unsigned char)*c);
 				return;
 			}
 
-- 
2.43.0


From 28c1b1ac31221c1972c770ce06ad116c52727568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 13/37] fix: leak of selint-disable comments next to syntax
 errors

---
 src/parse.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.y b/src/parse.y
index 496a5b8..44952c7 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -90,6 +90,7 @@
 %token <string> SELINT_COMMAND;
 
 %destructor { free($$); } STRING
+%destructor { free($$); } SELINT_COMMAND
 %destructor { free($$); } NUM_STRING
 %destructor { free($$); } IPV4
 %destructor { free($$); } IPV6
-- 
2.43.0


From 3b11ac3e9d74d9de788d2bfa739a7cfcbca9822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 14/37] fix: apply selint-disable comments to all and only the
 nodes of their statement

A comment after a statement without a node, e.g. genfscon, disabled checks for
the previous statement, a comment after a require of several names only affected
the last one, and a second comment for the same node replaced the first one.
---
 src/parse.y           | 14 ++++++++++++--
 src/parse_functions.c | 11 ++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 44952c7..69128e7 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -275,7 +275,12 @@ lines:
 line:
 	bare_line
 	|
-	bare_line SELINT_COMMAND { save_command(cur, $2); free($2); }
+	bare_line SELINT_COMMAND {
+			// not all statements have a node, e.g. genfscon
+			if (cur->lineno >= @1.first_line) {
+				save_command(cur, $2);
+			}
+			free($2); }
 	;
 
 bare_line:
@@ -579,7 +584,12 @@ require_lines:
 require_line:
 	require_bare
 	|
-	require_bare SELINT_COMMAND { save_command(cur, $2); free($2); }
+	require_bare SELINT_COMMAND {
+			// one statement can require several names
+			for (struct policy_node *node = cur; node && node->lineno >= @1.first_line; node = node->prev) {
+				save_command(node, $2);
+			}
+			free($2); }
 	;
 
 require_bare:
diff --git a/src/parse_functions.c b/src/parse_functions.c
index da2adcc..4084eaa 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -748,7 +748,16 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 	}
 	comm += strlen("selint-");
 	if (0 == strncmp("disable:", comm, 8)) {
-		cur->exceptions = strdup(comm + strlen("disable:"));
+		comm += strlen("disable:");
+		if (cur->exceptions) {
+			// extend the checks disabled by a previous comment
+			char *joined = malloc(strlen(cur->exceptions) + 1 + strlen(comm) + 1);
+			sprintf(joined, "%s,%s", cur->exceptions, comm);
+			free(cur->exceptions);
+			cur->exceptions = joined;
+		} else {
+			cur->exceptions = strdup(comm);
+		}
 	} else {
 		return SELINT_PARSE_ERROR;
 	}
-- 
2.43.0


From 48ec6b887f7679e33d1b604889d5612865224638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 15/37] fix: leaks of repeated support file paths and
 custom_fc_macros

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index fc3df07..faa6944 100644
--- a/src/main.c
+++ b/src/main.c
@@ -430,14 +430,17 @@ int main(int argc, char **argv)
 		} else if (source_flag
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
+			free(modules_conf_path);
 			modules_conf_path = strdup(file->fts_path);
 		} else if (source_flag
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
+			free(obj_perm_sets_path);
 			obj_perm_sets_path = strdup(file->fts_path);
 		} else if (source_flag
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
+			free(access_vector_path);
 			access_vector_path = strdup(file->fts_path);
 		} else {
 			// Directories might get traversed twice: preorder and final visit.
@@ -616,6 +619,7 @@ int main(int argc, char **argv)
 		exit_code = EX_SOFTWARE;
 	}
 
+	free_string_list(custom_fc_macros);
 	if (config_enabled_checks) {
 		free_string_list(config_enabled_checks);
 	}
-- 
2.43.0


From c304332a9d8d99f322327356a2563a16c5e6d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 16/37] fix: do not handle directories as policy or support
 files

---
 src/main.c    | 20 ++++++++++++--------
 src/startup.c |  4 +++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index faa6944..fe1225e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -409,7 +409,9 @@ int main(int argc, char **argv)
 	char *access_vector_path = NULL;
 
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		// directories can have any name
+		const bool is_directory = file->fts_info == FTS_D || file->fts_info == FTS_DP;
+		const char *suffix = (!is_directory && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 
 		if (suffix && !strcmp(suffix, ".te")) {
 			file_list_push_back(te_files,
@@ -427,17 +429,17 @@ int main(int argc, char **argv)
 			file_list_push_back(fc_files,
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
-		} else if (source_flag
+		} else if (source_flag && !is_directory
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
 			free(modules_conf_path);
 			modules_conf_path = strdup(file->fts_path);
-		} else if (source_flag
+		} else if (source_flag && !is_directory
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
 			free(obj_perm_sets_path);
 			obj_perm_sets_path = strdup(file->fts_path);
-		} else if (source_flag
+		} else if (source_flag && !is_directory
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
 			free(access_vector_path);
@@ -484,7 +486,9 @@ int main(int argc, char **argv)
 		file = fts_read(ftsp);
 
 		while (file) {
-			const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+			// directories can have any name
+			const bool is_directory = file->fts_info == FTS_D || file->fts_info == FTS_DP;
+			const char *suffix = (!is_directory && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 			if (suffix &&  !strcmp(suffix, ".te")) {
 				if (!file_name_in_file_list(file->fts_path, te_files)) {
 					file_list_push_back(context_te_files,
@@ -497,15 +501,15 @@ int main(int argc, char **argv)
 							    make_policy_file(file->fts_path,
 							    NULL));
 				}
-			} else if (source_flag
+			} else if (source_flag && !is_directory
                                    && !modules_conf_path
                                    && 0 == strcmp(file->fts_name, "modules.conf")) {
 				modules_conf_path = strdup(file->fts_path);
-			} else if (source_flag
+			} else if (source_flag && !is_directory
                                    && !obj_perm_sets_path
                                    && 0 == strcmp(file->fts_name, "obj_perm_sets.spt")) {
 				obj_perm_sets_path = strdup(file->fts_path);
-			} else if (source_flag
+			} else if (source_flag && !is_directory
                                    && !access_vector_path
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
 				access_vector_path = strdup(file->fts_path);
diff --git a/src/startup.c b/src/startup.c
index 4e44860..7107bb3 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -230,7 +230,9 @@ IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		// directories can have any name
+		const bool is_directory = file->fts_info == FTS_D || file->fts_info == FTS_DP;
+		const char *suffix = (!is_directory && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 		if (suffix && !strcmp(suffix, ".if")) {
 			file_list_push_back(context_files,
 			                    make_policy_file(file->fts_path,
-- 
2.43.0


From db5a8d9dc5f57ce9bbcb42747db8269987ec46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:51 +0000
Subject: [PATCH 17/37] fix: exhaustion of the stack by large files

Sibling nodes and ordering sections were freed recursively and leading comments
were limited by the maximum depth of the parser stack.
---
 src/ordering.c | 12 ++++++------
 src/parse.y    |  2 +-
 src/tree.c     | 11 ++++++++---
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/ordering.c b/src/ordering.c
index ce945a3..b59e971 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -50,7 +50,7 @@ struct ordering_metadata *prepare_ordering_metadata(const struct check_data *dat
 
 	while (cur) {
 		if (add_section_info(sections, get_section(cur), cur->lineno) == SELINT_BAD_ARG) {
-			free(sections);
+			free_section_data(sections);
 			return NULL;
 		}
 		count += 1;
@@ -959,10 +959,10 @@ void free_ordering_metadata(struct ordering_metadata *to_free)
 
 void free_section_data(struct section_data *to_free)
 {
-	if (to_free == NULL) {
-		return;
+	while (to_free) {
+		struct section_data *next = to_free->next;
+		free(to_free->section_name);
+		free(to_free);
+		to_free = next;
 	}
-	free(to_free->section_name);
-	free_section_data(to_free->next);
-	free(to_free);
 }
diff --git a/src/parse.y b/src/parse.y
index 69128e7..6cdbc46 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -230,7 +230,7 @@ te_policy:
 comments:
 	comment
 	|
-	comment comments
+	comments comment
 	;
 
 comment:
diff --git a/src/tree.c b/src/tree.c
index ad0d7b9..b624fe1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -364,6 +364,14 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 		return SELINT_BAD_ARG;
 	}
 
+	// Free the siblings one by one, recursing over them could exhaust the stack
+	while (to_free->next) {
+		struct policy_node *sibling = to_free->next;
+		to_free->next = sibling->next;
+		sibling->next = NULL;
+		free_policy_node(sibling);
+	}
+
 	switch (to_free->flavor) {
 	case NODE_HEADER:
 		free_header_data(to_free->data.h_data);
@@ -415,9 +423,6 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 	free_policy_node(to_free->first_child);
 	to_free->first_child = NULL;
 
-	free_policy_node(to_free->next);
-	to_free->next = NULL;
-
 	to_free->prev = NULL;
 
 	free(to_free);
-- 
2.43.0


From c779d8c01510e7268e2c7e3d6fd204ba7dc166a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 18/37] fix: terminate the result of replace_m4 after a missing
 argument

---
 src/template.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/template.c b/src/template.c
index f56829c..afd2760 100644
--- a/src/template.c
+++ b/src/template.c
@@ -76,6 +76,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 			ret_pos += strlen(cur->string);
 		}
 		// Otherwise, we are inserting the empty string
+		*ret_pos = '\0';
 	}
 	return ret;
 }
-- 
2.43.0


From a4977eae862925a8ee5d5e1f71e9aaa3ee47b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 19/37] fix: do not report statements which are in order with
 the ordered sequence

---
 src/ordering.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ordering.c b/src/ordering.c
index b59e971..42af861 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -116,6 +116,8 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 		cur = ordering_next(cur);
 	}
 
+	const int count = index;
+
 	// Mark LIS elements
 	index = nodes[longest_seq - 1].end_of_seq;
 	while (index != -1) {
@@ -123,6 +125,23 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 		index = nodes[index].seq_prev;
 	}
 
+	// Not every two nodes are comparable (e.g. non-ordered sections), so nodes
+	// left out might be in order with every node of the sequence.  Add these.
+	for (int i = 0; i < count; i++) {
+		bool conflict = nodes[i].in_order;
+		for (int d = 1; !conflict && (d <= i || i + d < count); d++) {
+			if (d <= i && nodes[i - d].in_order) {
+				conflict = comp_func(ordering, nodes[i - d].node, nodes[i].node) < 0;
+			}
+			if (!conflict && i + d < count && nodes[i + d].in_order) {
+				conflict = comp_func(ordering, nodes[i].node, nodes[i + d].node) < 0;
+			}
+		}
+		if (!conflict) {
+			nodes[i].in_order = 1;
+		}
+	}
+
 #ifdef DEBUG_INFO
 	for (int i=0; i< ordering->order_node_len; i++) {
 		if(nodes[i].node) {
-- 
2.43.0


From a3d0c5472abc31c0b118e35b64de58b62a5115df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:47 +0000
Subject: [PATCH 20/37] fix: do not take parts of contexts for IPv6 addresses

---
 src/lex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 8a0469d..3d63648 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -154,7 +154,8 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 [a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return STRING; }
 [0-9a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return NUM_STRING; }
 [0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = strdup(yytext); return IPV4; }
-([0-9A-Fa-f]{1,4})?\:([0-9A-Fa-f\:])*\:([0-9A-Fa-f]{1,4})? { yylval->string = strdup(yytext); return IPV6; }
+([0-9A-Fa-f]{1,4}\:){7}[0-9A-Fa-f]{1,4} { yylval->string = strdup(yytext); return IPV6; }
+([0-9A-Fa-f]{1,4}(\:[0-9A-Fa-f]{1,4})*)?\:\:([0-9A-Fa-f]{1,4}(\:[0-9A-Fa-f]{1,4})*)? { yylval->string = strdup(yytext); return IPV6; }
 \"[a-zA-Z0-9_\.\-\:~\$]*\" { yylval->string = strdup(yytext); return QUOTED_STRING; }
 \-[\-ldbcsp][ \t] { return FILE_TYPE_SPECIFIER; }
 \( { return OPEN_PAREN; }
-- 
2.43.0


From 4ba33007f339ec40460e775bc32dcb1de87c8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 21/37] fix: do not report interface parameters as unknown
 permissions

---
 src/te_checks.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/te_checks.c b/src/te_checks.c
index 82786e0..d9c0bf7 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -708,6 +708,11 @@ struct check_result *check_unknown_permission(__attribute__((unused)) const stru
 			continue;
 		}
 
+		// ignore interface parameters
+		if (cur->string[0] == '$' && isdigit((unsigned char)cur->string[1])) {
+			continue;
+		}
+
 		// ignore generated all_ permission macros
 		if (0 == strncmp(cur->string, "all_", strlen("all_")) &&
 		    ends_with(cur->string, strlen(cur->string), "_perms", strlen("_perms"))) {
-- 
2.43.0


From 1e44c229ee3506ae0a70aca3956676fa00db1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 22/37] fix: treat directories starting with two dots as hidden

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index fe1225e..7135830 100644
--- a/src/main.c
+++ b/src/main.c
@@ -464,8 +464,8 @@ int main(int argc, char **argv)
 			if (!scan_hidden_dirs &&
 			    file->fts_info == FTS_D &&
 			    file->fts_name[0] == '.' &&
-			    file->fts_name[1] != '.' &&
-			    file->fts_name[1] != '\0') {
+			    0 != strcmp(file->fts_name, ".") &&
+			    0 != strcmp(file->fts_name, "..")) {
 				print_if_verbose("Skipping hidden directory %s\n", file->fts_path);
 				fts_set(ftsp, file, FTS_SKIP);
 			}
-- 
2.43.0


From f38ecfb9ac551e0646f16ec8a0ee0ad9c642a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 23/37] fix: apply selint-disable comments to the aliases of
 their statement

---
 src/parse_functions.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index 4084eaa..b95830a 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -758,6 +758,13 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 		} else {
 			cur->exceptions = strdup(comm);
 		}
+		// aliases are part of the statement
+		if (cur->flavor == NODE_DECL || cur->flavor == NODE_TYPE_ALIAS) {
+			for (struct policy_node *alias = cur->first_child; alias; alias = alias->next) {
+				free(alias->exceptions);
+				alias->exceptions = strdup(cur->exceptions);
+			}
+		}
 	} else {
 		return SELINT_PARSE_ERROR;
 	}
-- 
2.43.0


From 391a0c39a9a047ee48c3daa1d7c30064b7e4e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 24/37] fix: include the header declaring sprintf

---
 src/parse_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index b95830a..4faed48 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -14,6 +14,7 @@
 * limitations under the License.
 */
 
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
-- 
2.43.0


From ff3a9266b2801dbe31aa975c27b304624f2bb596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 25/37] fix: match whole check ids in selint-disable comments

---
 src/check_hooks.c |  2 +-
 src/ordering.c    |  2 +-
 src/tree.c        | 18 ++++++++++++++++++
 src/tree.h        |  8 ++++++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..fb8ba69 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -70,7 +70,7 @@ enum selint_error call_checks_for_node_type(struct check_node *ck_list,
 	struct check_node *cur = ck_list;
 
 	while (cur) {
-		if (node->exceptions && strstr(node->exceptions, cur->check_id)) {
+		if (is_check_disabled(node, cur->check_id)) {
 			cur = cur->next;
 			continue;
 		}
diff --git a/src/ordering.c b/src/ordering.c
index 42af861..bc8f71e 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -37,7 +37,7 @@ static const struct policy_node *ordering_next(const struct policy_node *node)
 	const struct policy_node *next = node;
 	do {
 		next = dfs_next(next);
-	} while (next && next->exceptions && strstr(next->exceptions, "C-001"));
+	} while (next && is_check_disabled(next, "C-001"));
 
 	return next;
 }
diff --git a/src/tree.c b/src/tree.c
index b624fe1..850c566 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -14,8 +14,10 @@
 * limitations under the License.
 */
 
+#include <ctype.h>
 #include <stddef.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "tree.h"
 #include "maps.h"
@@ -358,6 +360,22 @@ struct policy_node *dfs_next(const struct policy_node *node)
 	}
 }
 
+bool is_check_disabled(const struct policy_node *node, const char *check_id)
+{
+	const size_t len = strlen(check_id);
+	const char *pos = node->exceptions;
+
+	// longer ids can start with check_id
+	while (pos && (pos = strstr(pos, check_id))) {
+		pos += len;
+		if (!isdigit((unsigned char)*pos)) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 enum selint_error free_policy_node(struct policy_node *to_free)
 {
 	if (to_free == NULL) {
diff --git a/src/tree.h b/src/tree.h
index 51e974f..da47fda 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -17,6 +17,8 @@
 #ifndef TREE_H
 #define TREE_H
 
+#include <stdbool.h>
+
 #include "selint_error.h"
 #include "string_list.h"
 
@@ -250,6 +252,12 @@ int is_in_require(const struct policy_node *cur);
 //Return the next node in a depth first search of the tree
 struct policy_node *dfs_next(const struct policy_node *node);
 
+/**********************************
+* Return whether a selint-disable comment disables the check
+* with the given id for the node
+**********************************/
+bool is_check_disabled(const struct policy_node *node, const char *check_id);
+
 enum selint_error free_policy_node(struct policy_node *to_free);
 
 enum selint_error free_header_data(struct header_data *to_free);
-- 
2.43.0


From bba7b1e10578b29943bb3bd2b4a211a0d8639725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 26/37] fix: do not read past the end of an empty check id

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index fb8ba69..cab2d6c 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -137,7 +137,7 @@ int is_valid_check(const char *check_str)
 		return 0;
 	}
 
-	if (check_str[1] != '-') {
+	if (check_str[0] == '\0' || check_str[1] != '-') {
 		return 0;
 	}
 
-- 
2.43.0


From b384d49134003cc5977c41dd11c15cdceb14310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 27/37] fix: keep the declarations of templates that call each
 other in a cycle

---
 src/template.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template.c b/src/template.c
index afd2760..69e7d33 100644
--- a/src/template.c
+++ b/src/template.c
@@ -131,7 +131,10 @@ enum selint_error add_template_declarations(const char *template_name,
 		res = add_template_declarations(calls->call->name, new_args, cur,
 		                                mod_name);
 		free_string_list(new_args);
-		if (res != SELINT_SUCCESS) {
+		if (res == SELINT_IF_CALL_LOOP) {
+			// The looping call declares nothing new, the rest of this template does
+			res = SELINT_SUCCESS;
+		} else if (res != SELINT_SUCCESS) {
 			goto out;
 		}
 
-- 
2.43.0


From 0650f3fb182cdde1beaa34ae112bb256d5f56940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 28/37] fix: report directories given as configuration file as
 a configuration error

---
 src/selint_config.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/selint_config.c b/src/selint_config.c
index b8e2e8f..19a33c0 100644
--- a/src/selint_config.c
+++ b/src/selint_config.c
@@ -17,6 +17,7 @@
 #include <stdlib.h>
 #include <confuse.h>
 #include <string.h>
+#include <sys/stat.h>
 
 #include "util.h"
 #include "selint_config.h"
@@ -97,9 +98,17 @@ IGNORE_CONST_DISCARD_BEGIN;
 IGNORE_CONST_DISCARD_END;
 	cfg_t *cfg;
 
+	print_if_verbose("Loading configuration from: %s\n", config_filename);
+
+	// the scanner of libconfuse ends the program on a directory
+	struct stat st;
+	if (stat(config_filename, &st) == 0 && S_ISDIR(st.st_mode)) {
+		printf("Configuration file %s is a directory.\n", config_filename);
+		return SELINT_CONFIG_PARSE_ERROR;
+	}
+
 	cfg = cfg_init(opts, CFGF_NONE);
 
-	print_if_verbose("Loading configuration from: %s\n", config_filename);
 	if (cfg_parse(cfg, config_filename) == CFG_PARSE_ERROR) {
 		printf
 		        ("Parse error when attempting to parse configuration file.\n");
-- 
2.43.0


From fba83b90e3a47de6747d6a8f714074a32cf40838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 29/37] fix: leak of gen_user arguments next to syntax errors

---
 src/parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index 6cdbc46..9b77cb9 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -194,7 +194,7 @@
 %type<av_flavor> xperm_av_type
 %type<node_flavor> if_keyword
 
-%destructor { free($$); } mls_component mls_level mls_range sl_item xperm_item
+%destructor { free($$); } maybe_string_comma mls_component mls_level mls_range sl_item xperm_item
 %destructor { free_string_list($$); } arg args comma_string_list string_list strings xperm_list xperm_items
 
 %%
-- 
2.43.0


From 7cdeebe99e875629216b20b8a7ed3b4c8230fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 30/37] fix: leak of a range inside of the first argument of
 gen_context()

---
 src/parse_fc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index e76c95f..9e737af 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -131,6 +131,8 @@ struct fc_entry *parse_fc_line(char *line)
 			goto cleanup;
 		}
 		out->context->has_gen_context = 1;
+		// a range inside of the first argument is not used
+		free(out->context->range);
 		if (maybe_c) {
 			out->context->range =
 				malloc(strlen(maybe_s) + 1 + strlen(maybe_c) + 1);
-- 
2.43.0


From 050a975f5d8ce517c86635d470d1376668d5bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 31/37] fix: leak of the name of an interface outside of an if
 file

---
 src/parse.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.y b/src/parse.y
index 9b77cb9..9693fcb 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -955,6 +955,7 @@ interface_def:
 start_interface:
 	if_keyword OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA BACKTICK {
 				if (expected_node_flavor != NODE_IF_FILE) {
+					free($4);
 					const struct location loc = { @1.first_line, @1.first_column, @7.last_line, @7.last_column };
 					yyerror(&loc, NULL, "Error: Unexpected if-file parsed");
 					YYERROR;
-- 
2.43.0


From b56c09e9276e47ea6ecd1faed75e3b3b2e562bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 32/37] fix: do not read before the node array when ordering an
 empty te file

---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index bc8f71e..c2616bc 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -119,7 +119,7 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 	const int count = index;
 
 	// Mark LIS elements
-	index = nodes[longest_seq - 1].end_of_seq;
+	index = (longest_seq > 0) ? nodes[longest_seq - 1].end_of_seq : -1;
 	while (index != -1) {
 		nodes[index].in_order = 1;
 		index = nodes[index].seq_prev;
-- 
2.43.0


From 3a53fb0ebc7d854f7d5d5608ba8091bc1ba85ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 33/37] fix: reject common definitions outside of access vector
 files

---
 src/parse.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index 9693fcb..6d6aa18 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -1068,7 +1068,13 @@ av_class_definition:
 	;
 
 av_common_definition:
-	COMMON STRING av_permission_list { free($2); }
+	COMMON STRING av_permission_list {
+			if (expected_node_flavor != NODE_AV_FILE) {
+				free($2);
+				const struct location loc = { @1.first_line, @1.first_column, @3.last_line, @3.last_column };
+				yyerror(&loc, NULL, "Error: Unexpected av-file parsed"); YYERROR;
+			}
+			free($2); }
 	;
 
 av_permission_list:
-- 
2.43.0


From 950bd7fcc9b33c270037ded83deccee1a9f0f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 34/37] fix: accept comments at the end of a file without a
 final newline

---
 src/lex.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 3d63648..a19e747 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -151,6 +151,7 @@ template { return TEMPLATE; }
 userdebug_or_eng { return USERDEBUG_OR_ENG; }
 [0-9]+\.[0-9]+(\.[0-9]+)? { yylval->string = strdup(yytext); return VERSION_NO; }
 [0-9]+ { yylval->string = strdup(yytext); return NUMBER; }
+dnl.* ; /* skip m4 comment lines */
 [a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return STRING; }
 [0-9a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return NUM_STRING; }
 [0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = strdup(yytext); return IPV4; }
@@ -177,8 +178,7 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \!\= { return NOT_EQUAL; }
 \! { return NOT; }
 \=\= { return EQUAL; }
-\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
-\#.*$ { return COMMENT; }
-dnl(.*)?$ ; /* skip m4 comment lines */
+\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)* { yylval->string = strdup(yytext); return SELINT_COMMAND; }
+\#.* { return COMMENT; }
 [ \t\n\r] ; /* normally skip whitespace */
 . { yylval->symbol = *yytext; return UNKNOWN_TOKEN; }
-- 
2.43.0


From 5bec26a6889b82e44b4692e8eb9cd8bc7453195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 35/37] fix: report empty path arguments instead of crashing

---
 src/main.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.c b/src/main.c
index 7135830..fba5385 100644
--- a/src/main.c
+++ b/src/main.c
@@ -18,6 +18,7 @@
 #include <getopt.h>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <errno.h>
 #include <fts.h>
 #include <unistd.h>
 #include <sysexits.h>
@@ -401,6 +402,11 @@ int main(int argc, char **argv)
 	paths[i] = NULL;
 
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+	if (!ftsp) {
+		// e.g. an empty path
+		printf("%sError%s: Failed to open the given paths: %s\n", color_error(), color_reset(), strerror(errno));
+		exit(EX_USAGE);
+	}
 
 	FTSENT *file = fts_read(ftsp);
 
@@ -483,6 +489,10 @@ int main(int argc, char **argv)
 		paths[1] = NULL;
 
 		ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+		if (!ftsp) {
+			printf("%sError%s: Failed to open context path '%s': %s\n", color_error(), color_reset(), paths[0], strerror(errno));
+			exit(EX_USAGE);
+		}
 		file = fts_read(ftsp);
 
 		while (file) {
-- 
2.43.0


From 839ca541b727cad08e3e25ec08bf2b31733b2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 36/37] fix: exponential time for permission macros consisting
 of each other

---
 src/perm_macro.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 315b800..4882d19 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -166,7 +166,7 @@ struct expansion {
 	const struct expansion *parent;
 };
 
-static void compute_perm_mask_expanding(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent);
+static void compute_perm_mask_expanding(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent, struct string_list **expanded);
 
 static bool is_being_expanded(const char *name, const struct expansion *cur)
 {
@@ -179,7 +179,7 @@ static bool is_being_expanded(const char *name, const struct expansion *cur)
 	return false;
 }
 
-static void str_to_mask_expanding(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent)
+static void str_to_mask_expanding(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent, struct string_list **expanded)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -192,8 +192,15 @@ static void str_to_mask_expanding(const char *permission, mask_t *mask_raw, mask
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
 	// treat macros referring to themselves as unknown
 	if (macro_perms && !is_being_expanded(permission, parent)) {
-		const struct expansion self = { permission, parent };
-		compute_perm_mask_expanding(macro_perms, mask_raw, mask_extended, &self);
+		// expanding a macro again does not add further permissions
+		if (!str_in_sl(permission, *expanded)) {
+			struct string_list *entry = sl_from_str(permission);
+			entry->next = *expanded;
+			*expanded = entry;
+
+			const struct expansion self = { permission, parent };
+			compute_perm_mask_expanding(macro_perms, mask_raw, mask_extended, &self, expanded);
+		}
 		return;
 	}
 
@@ -202,21 +209,25 @@ static void str_to_mask_expanding(const char *permission, mask_t *mask_raw, mask
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
-static void compute_perm_mask_expanding(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent)
+static void compute_perm_mask_expanding(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent, struct string_list **expanded)
 {
 	for (; permissions; permissions = permissions->next) {
-		str_to_mask_expanding(permissions->string, mask_raw, mask_extended, parent);
+		str_to_mask_expanding(permissions->string, mask_raw, mask_extended, parent, expanded);
 	}
 }
 
 static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
 {
-	str_to_mask_expanding(permission, mask_raw, mask_extended, NULL);
+	struct string_list *expanded = NULL;
+	str_to_mask_expanding(permission, mask_raw, mask_extended, NULL, &expanded);
+	free_string_list(expanded);
 }
 
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
 {
-	compute_perm_mask_expanding(permissions, mask_raw, mask_extended, NULL);
+	struct string_list *expanded = NULL;
+	compute_perm_mask_expanding(permissions, mask_raw, mask_extended, NULL, &expanded);
+	free_string_list(expanded);
 }
 
 struct string_builder {
-- 
2.43.0


From c71322b02f1dfa43dfbacc60afb9f679941edce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 37/37] fix: do not report the range operator of extended
 permissions as unordered

---
 src/te_checks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/te_checks.c b/src/te_checks.c
index d9c0bf7..dca77c5 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -115,7 +115,8 @@ struct check_result *check_unordered_perms(__attribute__((unused)) const struct
 	}
 
 	while (cur) {
-		if (prev && strcmp(prev->string, "~") != 0 && strcmp(cur->string, "-") != 0) {
+		// neither the complement nor the range operator is a permission
+		if (prev && strcmp(prev->string, "~") != 0 && strcmp(prev->string, "-") != 0 && strcmp(cur->string, "-") != 0) {
 			const int compare = strcmp(prev->string, cur->string);
 
 			if (compare > 0) {
-- 
2.43.0

