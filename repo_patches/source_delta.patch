From 745db1d8f3ca14f5b9a9466e9133a784467f8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 01/45] fix: match printf conversions with the types of their
 arguments

---
 src/blogc-git-receiver/pre-receive.c | 2 +-
 src/blogc-make/rules.c               | 6 +++---
 src/blogc/content-parser.c           | 6 +++---
 src/blogc/loader.c                   | 2 +-
 src/blogc/rusage.c                   | 4 ++--
 src/blogc/template-parser.c          | 4 ++--
 src/blogc/toctree.c                  | 8 ++++----
 src/common/error.c                   | 2 +-
 8 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..c97c697 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -261,7 +261,7 @@ default_sym:
             goto cleanup;
         }
         build_cmd = bc_strdup_printf(
-            "%s -j%d OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
+            "%s -j%zu OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
             cpu_count(), output_dir);
     }
     else {
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..67bdd00 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -286,7 +286,7 @@ pagination_outputlist(bm_ctx_t *ctx)
     const char *html_ext = bm_ctx_settings_lookup(ctx, "html_ext");
 
     for (size_t i = 0; i < pages; i++) {
-        char *j = bc_strdup_printf("%d", i + 1);
+        char *j = bc_strdup_printf("%zu", i + 1);
         char *f = bm_generate_filename(ctx->short_output_dir, blog_prefix,
             pagination_prefix, j, html_ext);
         rv = bc_slist_append(rv, bm_filectx_new(ctx, f, NULL, NULL));
@@ -375,7 +375,7 @@ pagination_tags_outputlist(bm_ctx_t *ctx)
         free(last_page);
 
         for (size_t i = 0; i < pages; i++) {
-            char *j = bc_strdup_printf("%d", i + 1);
+            char *j = bc_strdup_printf("%zu", i + 1);
             char *f = bm_generate_filename2(ctx->short_output_dir, blog_prefix,
                 tag_prefix, ctx->settings->tags[k], pagination_prefix, j, html_ext);
             rv = bc_slist_append(rv, bm_filectx_new(ctx, f, NULL, NULL));
@@ -428,7 +428,7 @@ pagination_tags_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
             // it is impossible to have more output files per tag than the whole
             // amount of output pages
             for (size_t k = 1; k <= bc_slist_length(outputs); k++) {
-                char *j = bc_strdup_printf("%d", k);
+                char *j = bc_strdup_printf("%zu", k);
                 char *f = bm_generate_filename2(ctx->short_output_dir, blog_prefix,
                     tag_prefix, ctx->settings->tags[i], pagination_prefix, j, html_ext);
                 free(j);
diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..9566564 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -856,10 +856,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     if (headers != NULL)
                         *headers = blogc_toctree_append(*headers, header_level, slug, parsed);
                     if (slug == NULL)
-                        bc_string_append_printf(rv, "<h%d>%s</h%d>%s",
+                        bc_string_append_printf(rv, "<h%zu>%s</h%zu>%s",
                             header_level, parsed, header_level, line_ending);
                     else
-                        bc_string_append_printf(rv, "<h%d id=\"%s\">%s</h%d>%s",
+                        bc_string_append_printf(rv, "<h%zu id=\"%s\">%s</h%zu>%s",
                             header_level, slug, parsed, header_level,
                             line_ending);
                     free(slug);
@@ -1065,7 +1065,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     end = is_last && c != '\n' && c != '\r' ? src_len :
                         (real_end != 0 ? real_end : current);
                     tmp = bc_strndup(src + start2, end - start2);
-                    tmp2 = bc_strdup_printf("%-*s", strlen(prefix), "");
+                    tmp2 = bc_strdup_printf("%-*s", (int) strlen(prefix), "");
                     if (bc_str_starts_with(tmp, prefix)) {
                         if (lines2 != NULL) {
                             tmp_str = bc_string_new();
diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..5dd0662 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -306,7 +306,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         if (bc_slist_length(rv) > 0)
             bc_trie_insert(conf, "FIRST_PAGE", bc_strdup("1"));
         if (last_page > 0)
-            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%d", last_page));
+            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%zu", last_page));
     }
 
     return rv;
diff --git a/src/blogc/rusage.c b/src/blogc/rusage.c
index c8f5a68..0a92c9e 100644
--- a/src/blogc/rusage.c
+++ b/src/blogc/rusage.c
@@ -50,7 +50,7 @@ blogc_rusage_format_cpu_time(long long time)
     if (time >= 1000)
         return bc_strdup_printf("%.*fms", time % 1000 ? 3 : 0, ((float) time) / 1000.0);
 
-    return bc_strdup_printf("%dus", time);
+    return bc_strdup_printf("%lldus", time);
 }
 
 
@@ -61,7 +61,7 @@ blogc_rusage_format_memory(long mem)
         return bc_strdup_printf("%.3fGB", ((float) mem) / 1048576.0);
     if (mem >= 1024)
         return bc_strdup_printf("%.3fMB", ((float) mem) / 1024.0);
-    return bc_strdup_printf("%dKB", mem);
+    return bc_strdup_printf("%ldKB", mem);
 }
 
 
diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..314447d 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -200,7 +200,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if (block_open) {
                             if (if_count != block_if_count) {
                                 *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
-                                    "%d open 'if', 'ifdef' and/or 'ifndef' statements "
+                                    "%zu open 'if', 'ifdef' and/or 'ifndef' statements "
                                     "were not closed inside a '%s' block!",
                                     if_count - block_if_count, block_type);
                                 break;
@@ -651,7 +651,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                 start2, "Found an open double-quoted string.");
         else if (if_count != 0)
             *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
-                "%d open 'if', 'ifdef' and/or 'ifndef' statements were not closed!",
+                "%zu open 'if', 'ifdef' and/or 'ifndef' statements were not closed!",
                 if_count);
         else if (block_open)
             *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
diff --git a/src/blogc/toctree.c b/src/blogc/toctree.c
index f4a9cc2..390ab33 100644
--- a/src/blogc/toctree.c
+++ b/src/blogc/toctree.c
@@ -49,17 +49,17 @@ blogc_toctree_render(bc_slist_t *headers, int maxdepth, const char *endl)
         }
         while (current_level > t->level) {
             spacing -= 4;
-            bc_string_append_printf(rv, "%*s</ul>%s", spacing, "",
+            bc_string_append_printf(rv, "%*s</ul>%s", (int) spacing, "",
                 endl == NULL ? "\n" : endl);
             current_level--;
         }
         while (current_level < t->level) {
-            bc_string_append_printf(rv, "%*s<ul>%s", spacing, "",
+            bc_string_append_printf(rv, "%*s<ul>%s", (int) spacing, "",
                 endl == NULL ? "\n" : endl);
             current_level++;
             spacing += 4;
         }
-        bc_string_append_printf(rv, "%*s<li>", spacing, "");
+        bc_string_append_printf(rv, "%*s<li>", (int) spacing, "");
         if (t->slug != NULL) {
             bc_string_append_printf(rv, "<a href=\"#%s\">%s</a>", t->slug,
                 t->text != NULL ? t->text : "");
@@ -73,7 +73,7 @@ blogc_toctree_render(bc_slist_t *headers, int maxdepth, const char *endl)
     // close leftovers
     while (current_level >= lower_level) {
         spacing -= 4;
-        bc_string_append_printf(rv, "%*s</ul>%s", spacing, "",
+        bc_string_append_printf(rv, "%*s</ul>%s", (int) spacing, "",
             endl == NULL ? "\n" : endl);
         current_level--;
     }
diff --git a/src/common/error.c b/src/common/error.c
index 3522a5c..2131935 100644
--- a/src/common/error.c
+++ b/src/common/error.c
@@ -90,7 +90,7 @@ bc_error_parser(bc_error_type_t type, const char *src, size_t src_len,
         rv = bc_error_new(type, msg);
     else
         rv = bc_error_new_printf(type,
-            "%s\nError occurred near line %d, position %d: %s", msg, lineno,
+            "%s\nError occurred near line %zu, position %zu: %s", msg, lineno,
             pos, line);
 
     free(msg);
-- 
2.43.0


From dd7e4ca79b3cb7b2f3c15544d00f4afd8972d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 02/45] fix: atom: do not use blog_prefix as a format string

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index f9e6294..499d804 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -58,7 +58,7 @@ bm_atom_generate(bm_settings_t *settings)
 
     if (blog_prefix != NULL) {
         bc_string_append_c(atom_url, '/');
-        bc_string_append_printf(atom_url, blog_prefix);
+        bc_string_append(atom_url, blog_prefix);
     }
 
     if (atom_prefix[0] != '\0')
-- 
2.43.0


From b11a01340de47e40ca9203b665b75e86225a7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 03/45] fix: content-parser: pass the field width of ordered
 lists as int

---
 src/blogc/content-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 9566564..c09e5b6 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1176,7 +1176,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     end = is_last && c != '\n' && c != '\r' ? src_len :
                         (real_end != 0 ? real_end : current);
                     tmp = bc_strndup(src + start2, end - start2);
-                    tmp2 = bc_strdup_printf("%-*s", prefix_len, "");
+                    tmp2 = bc_strdup_printf("%-*s", (int) prefix_len, "");
                     if (blogc_is_ordered_list_item(tmp, prefix_len)) {
                         if (lines2 != NULL) {
                             tmp_str = bc_string_new();
-- 
2.43.0


From 79329016fe622bd024b723ba0629df8d15f8c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 04/45] fix: loader: compare source timestamps without
 narrowing their difference

---
 src/blogc/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 5dd0662..f4abcfa 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -116,10 +116,10 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return (lb > la) - (lb < la);
 }
 
 
-- 
2.43.0


From f68cfd48855a487a44f9cb2b17dfee2a4cca05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 05/45] fix: git-receiver: do not follow symbolic links when
 removing a build recursively

---
 src/blogc-git-receiver/pre-receive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index c97c697..3b65756 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -36,7 +36,7 @@ rmdir_recursive(const char *dir)
     if (dir == NULL)
         return;
     struct stat buf;
-    if (0 != stat(dir, &buf)) {
+    if (0 != lstat(dir, &buf)) {
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
@@ -54,7 +54,7 @@ rmdir_recursive(const char *dir)
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
+        if (0 != lstat(f, &buf)) {
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
             free(f);
-- 
2.43.0


From b0e6ce527e7999fefec8319512401b4e5cfa80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 06/45] fix: git-receiver: report removal failures instead of
 exiting with the temporary directory left behind

---
 src/blogc-git-receiver/pre-receive.c | 34 +++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 3b65756..411f1d0 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -30,24 +30,24 @@ cpu_count(void)
 }
 
 
-static void
+static int
 rmdir_recursive(const char *dir)
 {
     if (dir == NULL)
-        return;
+        return 0;
     struct stat buf;
     if (0 != lstat(dir, &buf)) {
-        return;
+        return 0;
     }
     if (!S_ISDIR(buf.st_mode)) {
         fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
-        exit(2);
+        return 1;
     }
     DIR *d = opendir(dir);
     if (d == NULL) {
         fprintf(stderr, "error: failed to open directory: %s\n",
             strerror(errno));
-        exit(2);
+        return 1;
     }
     struct dirent *e;
     while (NULL != (e = readdir(d))) {
@@ -58,29 +58,36 @@ rmdir_recursive(const char *dir)
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
             free(f);
-            exit(2);
+            closedir(d);
+            return 1;
         }
         if (S_ISDIR(buf.st_mode)) {
-            rmdir_recursive(f);
+            if (0 != rmdir_recursive(f)) {
+                free(f);
+                closedir(d);
+                return 1;
+            }
         }
         else if (0 != unlink(f)) {
             fprintf(stderr, "error: failed to remove file (%s): %s\n", f,
                 strerror(errno));
             free(f);
-            exit(2);
+            closedir(d);
+            return 1;
         }
         free(f);
     }
     if (0 != closedir(d)) {
         fprintf(stderr, "error: failed to close directory: %s\n",
             strerror(errno));
-        exit(2);
+        return 1;
     }
     if (0 != rmdir(dir)) {
         fprintf(stderr, "error: failed to remove directory: %s\n",
             strerror(errno));
-        exit(2);
+        return 1;
     }
+    return 0;
 }
 
 
@@ -297,8 +304,8 @@ default_sym:
         goto cleanup2;
     }
 
-    if (htdocs_sym != NULL)
-        rmdir_recursive(htdocs_sym);
+    if (htdocs_sym != NULL && 0 != rmdir_recursive(htdocs_sym))
+        rv = 1;
 
 cleanup2:
     free(htdocs_sym);
@@ -307,7 +314,8 @@ cleanup:
     free(sym);
     free(ref);
     free(output_dir);
-    rmdir_recursive(tmpdir);
+    if (0 != rmdir_recursive(tmpdir))
+        rv = 1;
     free(repo_dir);
     return rv;
 }
-- 
2.43.0


From 766dbc8bb210816d5c9780fb3427369a989c9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 07/45] fix: git-receiver: reject shell commands with an
 unterminated quote or a dangling backslash

---
 src/blogc-git-receiver/shell-command-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..5f1c00d 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -87,7 +87,7 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    if (state == START_REPO && rv->len > 0)
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From 0e8ff82f867690758b8225ed2a0e9874a71f5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 08/45] fix: make: reject empty variable names in the global
 section

---
 src/blogc-make/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/settings.c b/src/blogc-make/settings.c
index 20bf3f8..e565175 100644
--- a/src/blogc-make/settings.c
+++ b/src/blogc-make/settings.c
@@ -115,7 +115,7 @@ bm_settings_parse(const char *content, size_t content_len, bc_error_t **err)
 
     if (global != NULL) {
         for (size_t i = 0; global[i] != NULL; i++) {
-            for (size_t j = 0; global[i][j] != '\0'; j++) {
+            for (size_t j = 0; j == 0 || global[i][j] != '\0'; j++) {
                 if (j == 0) {
                     if (!(global[i][j] >= 'A' && global[i][j] <= 'Z')) {
                         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_SETTINGS,
-- 
2.43.0


From 54de78244f0b178dfdf84aae2e85f4e3ac7a3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 09/45] fix: blogc: reject empty variable names given with -D

---
 src/blogc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..953cf33 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -210,7 +210,7 @@ main(int argc, char **argv)
                             rv = 1;
                             goto cleanup;
                         }
-                        for (size_t j = 0; pieces[0][j] != '\0'; j++) {
+                        for (size_t j = 0; j == 0 || pieces[0][j] != '\0'; j++) {
                             char c = pieces[0][j];
                             if (j == 0) {
                                 if (!(c >= 'A' && c <= 'Z')) {
-- 
2.43.0


From 6ddfa02ef23e42d2113fe9886815c1a9c78851bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 10/45] fix: make: quote the list of tags for the shell

---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..9479b62 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -240,7 +240,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 9097ec9dbdc77952842aef2687727862706b0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 11/45] fix: git-receiver: quote the mirror for the shell

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..99b4509 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -71,7 +71,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *quoted_mirror = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror %s", quoted_mirror);
+        free(quoted_mirror);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From c9fa2f1e07b42bcd5e1253c0b8dd0cdc99364e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 12/45] fix: git-receiver: quote the reference and the build
 directory for the shell

---
 src/blogc-git-receiver/pre-receive.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 411f1d0..c1d53aa 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -200,8 +200,10 @@ default_sym:
     }
     tmpdir = dir;
 
+    char *quoted_ref = bc_shell_quote(ref);
     char *git_archive_cmd = bc_strdup_printf(
-        "git archive \"%s\" | tar -x -C \"%s\" -f -", ref, tmpdir);
+        "git archive %s | tar -x -C \"%s\" -f -", quoted_ref, tmpdir);
+    free(quoted_ref);
     if (0 != system(git_archive_cmd)) {
         fprintf(stderr, "error: failed to extract git content to temporary "
             "directory: %s\n", tmpdir);
@@ -245,8 +247,10 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
-        build_cmd = bc_strdup_printf("OUTPUT_DIR=\"%s\" blogc-make -V all",
-            output_dir);
+        char *quoted_dir = bc_shell_quote(output_dir);
+        build_cmd = bc_strdup_printf("OUTPUT_DIR=%s blogc-make -V all",
+            quoted_dir);
+        free(quoted_dir);
     }
     else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUMakefile", F_OK))) {
         const char *make_impl = NULL;
@@ -267,9 +271,11 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
+        char *quoted_dir = bc_shell_quote(output_dir);
         build_cmd = bc_strdup_printf(
-            "%s -j%zu OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
-            cpu_count(), output_dir);
+            "%s -j%zu OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
+            cpu_count(), quoted_dir);
+        free(quoted_dir);
     }
     else {
         fprintf(stderr, "warning: no blogcfile or Makefile found. skipping ...\n");
-- 
2.43.0


From 6991dd36d3bea1919f6391afe3fb9d50e0daa235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 13/45] fix: file: report read errors instead of looping
 forever

---
 src/common/file.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..6f40639 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -35,6 +35,16 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
     while (!feof(fp)) {
         size_t read_len = fread(buffer, sizeof(char), BC_FILE_CHUNK_SIZE, fp);
 
+        if (ferror(fp)) {
+            int tmp_errno = errno;
+            *err = bc_error_new_printf(BC_ERROR_FILE,
+                "Failed to read file (%s): %s", path, strerror(tmp_errno));
+            *len = 0;
+            fclose(fp);
+            bc_string_free(str, true);
+            return NULL;
+        }
+
         tmp = buffer;
 
         if (utf8 && str->len == 0 && read_len > 0) {
-- 
2.43.0


From 69864adeab243d68170c8d9faa6730d72dd27068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 14/45] fix: source-parser: reserve the names of the pagination
 variables that the loader sets

---
 src/blogc/source-parser.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index b6154bc..f92b264 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -87,6 +87,24 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                          (0 == strncmp("PAGE_NEXT", src + start, 9))) ||
                         ((current - start == 9) &&
                          (0 == strncmp("PAGE_LAST", src + start, 9))) ||
+                        ((current - start == 10) &&
+                         (0 == strncmp("DATE_FIRST", src + start, 10))) ||
+                        ((current - start == 9) &&
+                         (0 == strncmp("DATE_LAST", src + start, 9))) ||
+                        ((current - start == 14) &&
+                         (0 == strncmp("FILENAME_FIRST", src + start, 14))) ||
+                        ((current - start == 13) &&
+                         (0 == strncmp("FILENAME_LAST", src + start, 13))) ||
+                        ((current - start == 10) &&
+                         (0 == strncmp("FIRST_PAGE", src + start, 10))) ||
+                        ((current - start == 13) &&
+                         (0 == strncmp("PREVIOUS_PAGE", src + start, 13))) ||
+                        ((current - start == 12) &&
+                         (0 == strncmp("CURRENT_PAGE", src + start, 12))) ||
+                        ((current - start == 9) &&
+                         (0 == strncmp("NEXT_PAGE", src + start, 9))) ||
+                        ((current - start == 9) &&
+                         (0 == strncmp("LAST_PAGE", src + start, 9))) ||
                         ((current - start == 13) &&
                          (0 == strncmp("BLOGC_VERSION", src + start, 13))))
                     {
-- 
2.43.0


From b5b9476657c13dd35c350773a96efa28647e9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 15/45] fix: source-parser: reserve RAW_CONTENT and EXCERPT

---
 src/blogc/source-parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index f92b264..af1ca56 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -71,6 +71,10 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                          (0 == strncmp("FILENAME", src + start, 8))) ||
                         ((current - start == 7) &&
                          (0 == strncmp("CONTENT", src + start, 7))) ||
+                        ((current - start == 11) &&
+                         (0 == strncmp("RAW_CONTENT", src + start, 11))) ||
+                        ((current - start == 7) &&
+                         (0 == strncmp("EXCERPT", src + start, 7))) ||
                         ((current - start == 14) &&
                          (0 == strncmp("DATE_FORMATTED", src + start, 14))) ||
                         ((current - start == 20) &&
-- 
2.43.0


From a42e8464037c9adeb5201b66daf0f4d1e3bfd068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 16/45] fix: blogc: report failures to write the output

---
 src/blogc/main.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 953cf33..66e02c5 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -267,6 +267,11 @@ main(int argc, char **argv)
     if (input_stdin) {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (input == NULL) {
+            fprintf(stderr, "blogc: error: failed to read from standard input\n");
+            rv = 1;
+            goto cleanup;
+        }
         bc_slist_t *input_list = blogc_filelist_parse(input, input_len);
         free(input);
         sources = bc_slist_append_list(sources, input_list);
@@ -363,11 +368,17 @@ main(int argc, char **argv)
         }
     }
 
-    if (out != NULL)
-        fprintf(fp, "%s", out);
+    if (out != NULL && 0 > fprintf(fp, "%s", out)) {
+        fprintf(stderr, "blogc: error: failed to write to output file: %s\n",
+            strerror(errno));
+        rv = 1;
+    }
 
-    if (!write_to_stdout)
-        fclose(fp);
+    if (0 != (write_to_stdout ? fflush(fp) : fclose(fp)) && rv == 0) {
+        fprintf(stderr, "blogc: error: failed to write to output file: %s\n",
+            strerror(errno));
+        rv = 1;
+    }
 
 cleanup4:
     free(out);
-- 
2.43.0


From 5d65fc9a5ce08134c8e285349429191f0a71ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 17/45] fix: stdin: report read errors

---
 src/blogc-git-receiver/pre-receive.c | 5 +++++
 src/common/stdin.c                   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index c1d53aa..2bd252d 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -174,6 +174,11 @@ default_sym:
     else {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (input == NULL) {
+            fprintf(stderr, "error: failed to read from standard input\n");
+            rv = 1;
+            goto cleanup;
+        }
         bc_trie_t *branches = bgr_pre_receive_parse(input, input_len);
 
         // try 'master' by default to avoid breaking existing setups
diff --git a/src/common/stdin.c b/src/common/stdin.c
index 3bd9abc..505d690 100644
--- a/src/common/stdin.c
+++ b/src/common/stdin.c
@@ -18,6 +18,11 @@ bc_stdin_read(size_t *len)
     bc_string_t *rv = bc_string_new();
     while (EOF != (c = fgetc(stdin)))
         bc_string_append_c(rv, c);
+    if (ferror(stdin)) {
+        *len = 0;
+        bc_string_free(rv, true);
+        return NULL;
+    }
     *len = rv->len;
     return bc_string_free(rv, false);
 }
-- 
2.43.0


From cd0613a6f2bdc75fabf878b51da13f21ed2bb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 18/45] fix: atom: write the whole template and report failures
 to close it

---
 src/blogc-make/atom.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 499d804..029977f 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -115,18 +115,30 @@ bm_atom_deploy(bm_settings_t *settings, bc_error_t **err)
         return NULL;
     }
 
-    if (-1 == write(fd, content, strlen(content))) {
+    size_t content_len = strlen(content);
+    size_t written = 0;
+    while (written < content_len) {
+        ssize_t w = write(fd, content + written, content_len - written);
+        if (w == -1) {
+            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
+                "Failed to write to temporary atom template: %s", strerror(errno));
+            free(content);
+            close(fd);
+            unlink(fname);
+            return NULL;
+        }
+        written += w;
+    }
+
+    free(content);
+
+    if (0 != close(fd)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
-            "Failed to write to temporary atom template: %s", strerror(errno));
-        free(content);
-        close(fd);
+            "Failed to close temporary atom template: %s", strerror(errno));
         unlink(fname);
         return NULL;
     }
 
-    free(content);
-    close(fd);
-
     return bc_strdup(fname);
 }
 
-- 
2.43.0


From bd76c0413b5f41fa91d961a8567f7565dca65bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 19/45] fix: ctx: warn about directories to copy that can't be
 read

---
 src/blogc-make/ctx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..f656e50 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -8,6 +8,7 @@
 #include <libgen.h>
 #include <limits.h>
 #include <time.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <stdbool.h>
 #include <string.h>
@@ -76,6 +77,8 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
     if (S_ISDIR(buf.st_mode)) {
         DIR *dir = opendir(f);
         if (dir == NULL) {
+            fprintf(stderr, "blogc-make: warning: failed to open directory "
+                "(%s): %s\n", f, strerror(errno));
             free(f);
             return l;
         }
-- 
2.43.0


From d878537e8c804089d0d8893ac3ef89ac2874ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 20/45] fix: exec-native: report read and close failures when
 copying

---
 src/blogc-make/exec-native.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..e56131d 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -79,8 +79,21 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         } while (nread > 0);
     }
 
+    if (nread < 0) {
+        fprintf(stderr, "blogc-make: error: failed to read from source file "
+            "(%s): %s\n", source->path, strerror(errno));
+        close(fd_from);
+        close(fd_to);
+        return 1;
+    }
+
     close(fd_from);
-    close(fd_to);
+
+    if (0 != close(fd_to)) {
+        fprintf(stderr, "blogc-make: error: failed to close destination file "
+            "(%s): %s\n", dest->path, strerror(errno));
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 8bb2eebdbc6479416cb137488306c381fe6f0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 21/45] fix: exec: read the output and the errors of a command
 together, and wait for it on every path

---
 src/blogc-make/exec.c | 160 ++++++++++++++++++++++++++++++------------
 1 file changed, 115 insertions(+), 45 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 9479b62..7fdfbcc 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -18,6 +18,8 @@
 #include <unistd.h>
 #include <sys/wait.h>
 #include <errno.h>
+#include <poll.h>
+#include <signal.h>
 #include <libgen.h>
 #include "../common/compat.h"
 #include "../common/error.h"
@@ -139,7 +141,7 @@ bm_exec_command(const char *cmd, const char *input, char **output,
 
         execv(argv[0], argv);
 
-        exit(1);
+        _exit(1);
     }
 
     // parent
@@ -147,62 +149,130 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     close(fd_out[1]);
     close(fd_err[1]);
 
-    if (input != NULL) {
-        if (-1 == write(fd_in[1], input, strlen(input))) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to write to stdin pipe: %s", strerror(errno));
-            close(fd_in[1]);
-            close(fd_out[0]);
-            close(fd_err[0]);
-            return 1;
-        }
+    // the command may exit before reading its whole input
+    struct sigaction ignore_pipe;
+    struct sigaction old_pipe;
+    ignore_pipe.sa_handler = SIG_IGN;
+    sigemptyset(&ignore_pipe.sa_mask);
+    ignore_pipe.sa_flags = 0;
+    bool sigpipe_ignored = 0 == sigaction(SIGPIPE, &ignore_pipe, &old_pipe);
+
+    size_t input_len = input != NULL ? strlen(input) : 0;
+    size_t written = 0;
+    if (input_len == 0) {
+        close(fd_in[1]);
+        fd_in[1] = -1;
     }
 
-    close(fd_in[1]);
-
-    char buffer[BC_FILE_CHUNK_SIZE];
-    ssize_t s;
-
     bc_string_t *out = NULL;
-    while(0 != (s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+    bc_string_t *out_err = NULL;
+
+    // everything must be handled together, otherwise the command would block
+    // as soon as it fills a pipe that we are not reading yet.
+    while (fd_in[1] != -1 || fd_out[0] != -1 || fd_err[0] != -1) {
+        char buffer[BC_FILE_CHUNK_SIZE];
+        ssize_t s;
+
+        // poll(2) ignores negative file descriptors
+        struct pollfd fds[] = {
+            {.fd = fd_in[1], .events = POLLOUT},
+            {.fd = fd_out[0], .events = POLLIN},
+            {.fd = fd_err[0], .events = POLLIN},
+        };
+        if (-1 == poll(fds, 3, -1)) {
+            if (errno == EINTR)
+                continue;
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stdout pipe: %s", strerror(errno));
-            close(fd_out[0]);
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+                "Failed to poll pipes: %s", strerror(errno));
+            break;
         }
-        if (out == NULL) {
-            out = bc_string_new();
+
+        if (fds[0].revents != 0) {
+            // chunk must not be bigger than PIPE_BUF, to never block
+            size_t chunk = input_len - written;
+            if (chunk > 512)
+                chunk = 512;
+            s = write(fd_in[1], input + written, chunk);
+            if (s == -1 && errno != EPIPE && errno != EINTR) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to write to stdin pipe: %s", strerror(errno));
+                break;
+            }
+            if (s > 0)
+                written += s;
+            if (written == input_len || (s == -1 && errno == EPIPE)) {
+                close(fd_in[1]);
+                fd_in[1] = -1;
+            }
+        }
+
+        if (fds[1].revents != 0) {
+            s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE);
+            if (s == -1) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to read from stdout pipe: %s", strerror(errno));
+                break;
+            }
+            if (s == 0) {
+                close(fd_out[0]);
+                fd_out[0] = -1;
+            }
+            else {
+                if (out == NULL)
+                    out = bc_string_new();
+                bc_string_append_len(out, buffer, s);
+            }
+        }
+
+        if (fds[2].revents != 0) {
+            s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE);
+            if (s == -1) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to read from stderr pipe: %s", strerror(errno));
+                break;
+            }
+            if (s == 0) {
+                close(fd_err[0]);
+                fd_err[0] = -1;
+            }
+            else {
+                if (out_err == NULL)
+                    out_err = bc_string_new();
+                bc_string_append_len(out_err, buffer, s);
+            }
         }
-        bc_string_append_len(out, buffer, s);
-    }
-    if (out != NULL) {
-        *output = bc_string_free(out, false);
     }
-    close(fd_out[0]);
 
-    out = NULL;
-    while(0 != (s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+    if (fd_in[1] != -1)
+        close(fd_in[1]);
+    if (fd_out[0] != -1)
+        close(fd_out[0]);
+    if (fd_err[0] != -1)
+        close(fd_err[0]);
+
+    if (sigpipe_ignored)
+        sigaction(SIGPIPE, &old_pipe, NULL);
+
+    int status = 0;
+    while (-1 == waitpid(pid, &status, 0)) {
+        if (errno == EINTR)
+            continue;
+        if (*err == NULL)
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stderr pipe: %s", strerror(errno));
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
-        }
-        if (out == NULL)
-            out = bc_string_new();
-        bc_string_append_len(out, buffer, s);
+                "Failed to wait for command: %s", strerror(errno));
+        break;
     }
-    if (out != NULL) {
-        *error = bc_string_free(out, false);
+
+    if (*err != NULL) {
+        bc_string_free(out, true);
+        bc_string_free(out_err, true);
+        return 1;
     }
-    close(fd_err[0]);
 
-    int status;
-    waitpid(pid, &status, 0);
+    if (out != NULL)
+        *output = bc_string_free(out, false);
+    if (out_err != NULL)
+        *error = bc_string_free(out_err, false);
 
     return bc_compat_status_code(status);
 }
-- 
2.43.0


From a5fef0023524105f87dc44b1dafc8d177b7a145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:18 +0000
Subject: [PATCH 22/45] fix: blogc: fail when the value given with -D is not
 valid UTF-8

---
 src/blogc/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 66e02c5..c3d61a6 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -200,6 +200,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
-- 
2.43.0


From 5652dd2d09761cc188426eccec552164ecb34e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:18 +0000
Subject: [PATCH 23/45] fix: make: do not forget an unknown rule when the rules
 after it succeed

---
 src/blogc-make/rules.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 67bdd00..d74c132 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -954,9 +954,9 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
                 continue;
             if (0 == strncmp(rule_str, rules[i].name, sep - rule_str)) {
                 rule = &(rules[i]);
-                rv = bm_rule_execute(ctx, rule, args);
-                if (rv != 0)
-                    return rv;
+                int rule_rv = bm_rule_execute(ctx, rule, args);
+                if (rule_rv != 0)
+                    return rule_rv;
                 break;
             }
         }
-- 
2.43.0


From e704e67a6ee195e068582353fa6fdaff7093c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:26 +0000
Subject: [PATCH 24/45] fix: runserver: keep served files inside of the
 document root (component boundary, linked index files)

---
 src/blogc-runserver/httpd.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..cc40ba7 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -53,6 +53,19 @@ error(int socket, int status_code, const char *error)
 }
 
 
+static bool
+is_inside_root(const char *real_root, const char *real_path)
+{
+    size_t len = strlen(real_root);
+    if (0 != strncmp(real_root, real_path, len))
+        return false;
+
+    // real_root only ends with '/' if it is the root of the filesystem
+    return real_root[len - 1] == '/' || real_path[len] == '/' ||
+        real_path[len] == '\0';
+}
+
+
 static void*
 handle_request(void *arg)
 {
@@ -115,7 +128,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside_root(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
@@ -143,8 +156,16 @@ handle_request(void *arg)
         if (path_len > 0 && path[path_len - 1] != '/')
             add_slash = true;
 
+        // the index may be a link to somewhere else
         free(real_path);
-        real_path = found;
+        real_path = realpath(found, NULL);
+        free(found);
+
+        if (real_path == NULL || !is_inside_root(real_root, real_path)) {
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From 7e714d4ed9282c3c6f0f8b61bf57ec6ca056698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:59 +0000
Subject: [PATCH 25/45] fix: runserver: send the requested path back
 url-encoded in redirects (header injection)

---
 src/blogc-runserver/httpd.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index cc40ba7..685bb7c 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -97,7 +97,6 @@ handle_request(void *arg)
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
     char *path = br_urldecode(pieces2[0]);
-    bc_strv_free(pieces2);
 
     if (path == NULL) {
         status_code = 400;
@@ -176,13 +175,14 @@ handle_request(void *arg)
 
     if (add_slash) {
         // production webservers usually returns 301 in such cases, but 302 is
-        // better for development/testing.
+        // better for development/testing. the path is sent back as requested,
+        // still url-encoded: a decoded path could add headers to the response.
         char *tmp = bc_strdup_printf(
             "HTTP/1.0 302 Found\r\n"
             "Location: %s/\r\n"
             "Content-Length: 0\r\n"
             "Connection: close\r\n"
-            "\r\n", path);
+            "\r\n", pieces2[0]);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
         if (tmp_len != write(client_socket, tmp, tmp_len)) {
@@ -225,6 +225,7 @@ point3:
     free(real_path);
 point2:
     free(path);
+    bc_strv_free(pieces2);
 point1:
     fprintf(stderr, "[Thread-%zu] %s - - \"%s\" %d\n", thread_id + 1,
         ip, conn_line, status_code);
-- 
2.43.0


From 7b1f9cdc89aa9142b7bea5ac78da772b44bef8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 26/45] fix: runserver: release the request line, client socket
 and host name on every path

---
 src/blogc-runserver/httpd.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 685bb7c..f143158 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -77,8 +77,10 @@ handle_request(void *arg)
     free(arg);
 
     char *conn_line = br_readline(client_socket);
-    if (conn_line == NULL || conn_line[0] == '\0')
+    if (conn_line == NULL || conn_line[0] == '\0') {
+        free(conn_line);
         goto point0;
+    }
 
     unsigned short status_code = 200;
 
@@ -315,6 +317,7 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
                 rv = 1;
                 goto cleanup0;
             }
+            free(final_host);
             continue;
         }
         int value = 1;
@@ -327,6 +330,7 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
                 rv = 1;
                 goto cleanup;
             }
+            free(final_host);
             close(server_socket);
             continue;
         }
@@ -390,7 +394,7 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
             goto cleanup;
         }
 
-        request_data_t *arg = malloc(sizeof(request_data_t));
+        request_data_t *arg = bc_malloc(sizeof(request_data_t));
         arg->thread_id = current_thread;
         arg->socket = client_socket;
         arg->ip = br_httpd_get_ip(ai_family, client_addr);
@@ -399,6 +403,7 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
         if (threads[current_thread].initialized) {
             if (pthread_join(threads[current_thread].thread, NULL) != 0) {
                 fprintf(stderr, "Failed to join thread\n");
+                close(client_socket);
                 free(arg->ip);
                 free(arg);
                 rv = 1;
@@ -410,6 +415,9 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
             handle_request, arg) != 0)
         {
             fprintf(stderr, "Failed to create thread\n");
+            close(client_socket);
+            free(arg->ip);
+            free(arg);
             rv = 1;
             goto cleanup;
         }
-- 
2.43.0


From 24015c164d013c8354f34531065456ef34625f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 27/45] fix: runserver: options without their value at the end
 of the command line

---
 src/blogc-runserver/main.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blogc-runserver/main.c b/src/blogc-runserver/main.c
index 8abd83a..5bcbc28 100644
--- a/src/blogc-runserver/main.c
+++ b/src/blogc-runserver/main.c
@@ -80,20 +80,22 @@ main(int argc, char **argv)
                 case 't':
                     if (argv[i][2] != '\0')
                         host = bc_strdup(argv[i] + 2);
-                    else
+                    else if (i + 1 < argc)
                         host = bc_strdup(argv[++i]);
                     break;
                 case 'p':
                     if (argv[i][2] != '\0')
                         port = bc_strdup(argv[i] + 2);
-                    else
+                    else if (i + 1 < argc)
                         port = bc_strdup(argv[++i]);
                     break;
                 case 'm':
                     if (argv[i][2] != '\0')
                         ptr = argv[i] + 2;
-                    else
+                    else if (i + 1 < argc)
                         ptr = argv[++i];
+                    else
+                        break;
                     max_threads = strtoul(ptr, &endptr, 10);
                     if (*ptr != '\0' && *endptr != '\0')
                         fprintf(stderr, "blogc-runserver: warning: invalid value "
-- 
2.43.0


From 9eb4cb4b5ab3a21b9a28c9515807524526389ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 28/45] fix: blogc: forget list items released when a list
 turns out to be a paragraph

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index c09e5b6..ea2c60a 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1100,6 +1100,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
@@ -1211,6 +1212,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
-- 
2.43.0


From 3d8cd98358e905378b79d5bcdacbd88f40a7385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 29/45] fix: blogc: never compute content pieces that end
 before they start (mixed line endings, empty headers, excerpt marks)

---
 src/blogc/content-parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index ea2c60a..d4bc1d8 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -729,6 +729,9 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         char c = src[current];
         bool is_last = current == src_len - 1;
 
+        // only valid for the current line ending
+        real_end = 0;
+
         if (c == '\n' || c == '\r') {
             if ((current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
@@ -820,7 +823,9 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     }
                 }
                 eend = 0;
-                state = CONTENT_PARAGRAPH_END;
+                state = CONTENT_PARAGRAPH;
+                if (is_last)
+                    continue;
                 break;
 
             case CONTENT_HEADER:
@@ -838,7 +843,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_HEADER_TITLE_START:
                 if (c == ' ' || c == '\t')
                     break;
-                start = current;
+                start = real_end != 0 ? real_end : current;
                 if (c != '\n' && c != '\r') {
                     state = CONTENT_HEADER_TITLE;
                     break;
-- 
2.43.0


From f3ff66038fbd0fb5cc816ad393afb77505a50f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 30/45] fix: file list entries are copied before being stored
 (free() of an interior pointer when a line starts with a form feed or
 vertical tab)

---
 src/blogc/filelist-parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc/filelist-parser.c b/src/blogc/filelist-parser.c
index 1ffe0ad..cd8626a 100644
--- a/src/blogc/filelist-parser.c
+++ b/src/blogc/filelist-parser.c
@@ -42,8 +42,9 @@ blogc_filelist_parse(const char *src, size_t src_len)
                 if (c == '\r' || c == '\n' || is_last) {
                     if (is_last && c != '\r' && c != '\n')
                         bc_string_append_c(line, c);
-                    rv = bc_slist_append(rv, bc_str_strip(line->str));
-                    bc_string_free(line, false);
+                    rv = bc_slist_append(rv,
+                        bc_strdup(bc_str_strip(line->str)));
+                    bc_string_free(line, true);
                     line = bc_string_new();
                     state = LINE_START;
                     break;
-- 
2.43.0


From 3aec78fab44adf4f147faf3155b32f9126bc1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 31/45] fix: content-parser: stop looking for a closing marker
 when there is none

---
 src/blogc/content-parser.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index d4bc1d8..9ebe049 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -260,11 +260,13 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 tmp = src + current;
                 do {
                     tmp = bc_str_find(tmp, '*');
+                    if (tmp == NULL)
+                        break;
                     if (((tmp - src) < src_len) && *(tmp + 1) == '*') {
                         break;
                     }
                     tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
+                } while ((tmp - src) < src_len);
                 if (tmp == NULL || ((tmp - src) >= src_len)) {
                     bc_string_append_c(rv, '*');
                     bc_string_append_c(rv, '*');
@@ -306,11 +308,13 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 tmp = src + current;
                 do {
                     tmp = bc_str_find(tmp, '_');
+                    if (tmp == NULL)
+                        break;
                     if (((tmp - src) < src_len) && *(tmp + 1) == '_') {
                         break;
                     }
                     tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
+                } while ((tmp - src) < src_len);
                 if (tmp == NULL || ((tmp - src) >= src_len)) {
                     bc_string_append_c(rv, '_');
                     bc_string_append_c(rv, '_');
@@ -356,11 +360,13 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 tmp = src + current;
                 do {
                     tmp = bc_str_find(tmp, '`');
+                    if (tmp == NULL)
+                        break;
                     if (((tmp - src) < src_len) && *(tmp + 1) == '`') {
                         break;
                     }
                     tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
+                } while ((tmp - src) < src_len);
                 if (tmp == NULL || ((tmp - src) >= src_len)) {
                     bc_string_append_c(rv, '`');
                     bc_string_append_c(rv, '`');
@@ -395,11 +401,13 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 tmp = src + current;
                 do {
                     tmp = bc_str_find(tmp, ']');
+                    if (tmp == NULL)
+                        break;
                     if (((tmp - src) < src_len) && *(tmp + 1) == ']') {
                         break;
                     }
                     tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
+                } while ((tmp - src) < src_len);
                 if (tmp == NULL || ((tmp - src) >= src_len)) {
                     bc_string_append_c(rv, '[');
                     bc_string_append_c(rv, '[');
-- 
2.43.0


From 507e7d21ea0f794a936fc338d51bdb7d46eefd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:17 +0000
Subject: [PATCH 32/45] fix: content-parser: keep the fallback for unfinished
 links inside the text being parsed

---
 src/blogc/content-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 9ebe049..27e6524 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -613,7 +613,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
+            tmp2 = blogc_content_parse_inline_internal(src + start_link,
+                src_len - start_link);
             bc_string_append_c(rv, '[');
             bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
             break;
-- 
2.43.0


From e5bc86dec4867e98751f80063a58bc87bd5a2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:17 +0000
Subject: [PATCH 33/45] fix: utils: bc_str_find must not step over the end of a
 string that ends in a backslash

---
 src/common/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..dfed4bf 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -315,7 +315,8 @@ bc_str_find(const char *str, char c)
         return (char*) str + strlen(str);
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
-            i++;
+            if (str[i + 1] != '\0')
+                i++;
             continue;
         }
         if (str[i] == c) {
-- 
2.43.0


From 8e4d387325d1e9ad2fda56afcea4d383d874bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 34/45] fix: git-receiver: no builds directory when there is no
 base directory

---
 src/blogc-git-receiver/settings.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/settings.c b/src/blogc-git-receiver/settings.c
index 8c28370..6f79b5c 100644
--- a/src/blogc-git-receiver/settings.c
+++ b/src/blogc-git-receiver/settings.c
@@ -32,7 +32,11 @@ bgr_settings_get_builds_dir(void)
     if (rv != NULL) {
         return bc_strdup(rv);
     }
-    return bc_strdup_printf("%s/builds", bgr_settings_get_base_dir());
+    const char *bd = bgr_settings_get_base_dir();
+    if (bd == NULL) {
+        return NULL;
+    }
+    return bc_strdup_printf("%s/builds", bd);
 }
 
 
-- 
2.43.0


From 1628fae850858ee201bd6b815f1078b6811e6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 35/45] fix: blogc-make: keep the last good context when
 reloading fails

---
 src/blogc-make/ctx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index f656e50..58d4bb5 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -315,13 +315,15 @@ bm_ctx_reload(bm_ctx_t **ctx)
         // needs to dup path, because it may be freed when reloading.
         char *tmp = bc_strdup((*ctx)->settings_fctx->path);
         bc_error_t *err = NULL;
-        *ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
+        bm_ctx_t *new_ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
         free(tmp);
         if (err != NULL) {
+            // keep the last good context, the user may fix the settings file
             bc_error_print(err, "blogc-make");
             bc_error_free(err);
             return false;
         }
+        *ctx = new_ctx;
         return true;
     }
 
-- 
2.43.0


From 9a83da2bf1d62da9d493b0fa18b3dae6106f5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:09 +0000
Subject: [PATCH 36/45] fix: blogc-make: do not lock from the signal handler,
 and lock every access to the state of the reloader

---
 src/blogc-make/reloader.c | 75 ++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/blogc-make/reloader.c b/src/blogc-make/reloader.c
index e025998..58326b3 100644
--- a/src/blogc-make/reloader.c
+++ b/src/blogc-make/reloader.c
@@ -22,10 +22,49 @@ static bool running = false;
 static int reloader_status_code = 0;
 static void (*handler_func)(int) = NULL;
 
+// the signal handler can't lock the mutex, because it may interrupt a thread
+// that already owns it. it can only store its result here.
+static volatile sig_atomic_t signal_status_code = 0;
+
+
+static void
+reraise(int signum, void (*func)(int))
+{
+    // this function is called by the signal handler, it must only call
+    // functions that are async-signal-safe
+
+    // reinstall old ^C handler
+    struct sigaction new_action;
+    new_action.sa_handler = func;
+    sigemptyset(&new_action.sa_mask);
+    new_action.sa_flags = 0;
+    sigaction(signum, &new_action, NULL);
+
+    // run it
+    raise(signum);
+
+    // SIGINT will usually kill the process, but in the case that the
+    // `func` prevents it, our custom handler will be reinstalled
+    // by `bm_reloader_run`.
+}
+
+
 static void
 sig_handler(int signum)
 {
-    bm_reloader_stop(signum + 128);
+    // `handler_func` is only written before this handler is installed
+    signal_status_code = signum + 128;
+    reraise(signum, handler_func);
+}
+
+
+static bool
+is_running(void)
+{
+    pthread_mutex_lock(&mutex_running);
+    bool rv = running;
+    pthread_mutex_unlock(&mutex_running);
+    return rv && signal_status_code == 0;
 }
 
 
@@ -59,9 +98,10 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
 
     pthread_mutex_lock(&mutex_running);
     running = true;
+    signal_status_code = 0;
     pthread_mutex_unlock(&mutex_running);
 
-    while (running) {
+    while (is_running()) {
         if (!bm_ctx_reload(ctx)) {
             fprintf(stderr, "blogc-make: warning: failed to reload context. "
                 "retrying in 5 seconds ...\n\n");
@@ -77,7 +117,13 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         sleep(1);
     }
 
-    return reloader_status_code;
+    if (signal_status_code != 0)
+        return signal_status_code;
+
+    pthread_mutex_lock(&mutex_running);
+    int rv = reloader_status_code;
+    pthread_mutex_unlock(&mutex_running);
+    return rv;
 }
 
 
@@ -88,24 +134,11 @@ bm_reloader_stop(int status_code)
 
     running = false;
     reloader_status_code = status_code;
-
-    // reraise if SIGINT
-    if (status_code == SIGINT + 128) {
-
-        // reinstall old ^C handler
-        struct sigaction new_action;
-        new_action.sa_handler = handler_func;
-        sigemptyset(&new_action.sa_mask);
-        new_action.sa_flags = 0;
-        sigaction(SIGINT, &new_action, NULL);
-
-        // run it
-        raise(SIGINT);
-
-        // SIGINT will usually kill the process, but in the case that the
-        // `handler_func` prevents it, our custom handler will be reinstalled
-        // by `bm_reloader_run`.
-    }
+    void (*func)(int) = handler_func;
 
     pthread_mutex_unlock(&mutex_running);
+
+    // reraise if SIGINT
+    if (status_code == SIGINT + 128)
+        reraise(SIGINT, func);
 }
-- 
2.43.0


From c536a97d5b0e9136402fca70a68bd431e4acf70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:12 +0000
Subject: [PATCH 37/45] fix: blogc-make: do not share the context with the
 httpd thread

---
 src/blogc-make/httpd.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index 1491095..ef8b332 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -41,6 +41,7 @@ httpd_thread(void *arg)
     httpd_starting = false;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
+    bm_ctx_free(httpd->ctx);
     free(httpd);
 
     // stop the reloader
@@ -81,13 +82,21 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
     }
 
     bm_httpd_t *rv = bc_malloc(sizeof(bm_httpd_t));
-    rv->ctx = *ctx;
+
+    // the thread needs its own copy of what it uses from the context, because
+    // the reloader may replace everything while the thread is running
+    rv->ctx = bc_malloc(sizeof(bm_ctx_t));
+    memset(rv->ctx, 0, sizeof(bm_ctx_t));
+    rv->ctx->blogc_runserver = bc_strdup((*ctx)->blogc_runserver);
+    rv->ctx->output_dir = bc_strdup((*ctx)->output_dir);
+    rv->ctx->verbose = (*ctx)->verbose;
     rv->args = args;
 
     pthread_t thread;
     if (0 != (err = pthread_create(&thread, &attr, httpd_thread, rv))) {
         fprintf(stderr, "blogc-make: error: failed to create httpd "
             "thread: %s\n", strerror(err));
+        bm_ctx_free(rv->ctx);
         free(rv);
         return 1;
     }
-- 
2.43.0


From feb6fe158655163337470797e0fab7823cd45455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 38/45] fix: blogc: the variables of a source are not visible
 in other blocks of a listing

---
 src/blogc/renderer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..a4a3577 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -247,6 +247,10 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
 
             case BLOGC_TEMPLATE_NODE_BLOCK:
                 inside_block = true;
+                // when listing, only the blocks that belong to a source can see
+                // its variables
+                if (listing)
+                    tmp_source = NULL;
                 if_count = 0;
                 if (0 == strcmp("entry", node->data[0])) {
                     if (listing) {
-- 
2.43.0


From 4c472defd5c3f36b52f44818dd583159a1c03232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:08 +0000
Subject: [PATCH 39/45] fix: blogc: refuse dates with trailing characters and
 days that the month does not have

---
 src/blogc/datetime-parser.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/blogc/datetime-parser.c b/src/blogc/datetime-parser.c
index 36f55f0..31d6e3e 100644
--- a/src/blogc/datetime-parser.c
+++ b/src/blogc/datetime-parser.c
@@ -40,6 +40,20 @@ typedef enum {
 } blogc_datetime_state_t;
 
 
+#ifdef HAVE_TIME_H
+
+static int
+days_in_month(int year, int month)
+{
+    static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
+    if (month == 1 && year % 4 == 0 && (year % 100 != 0 || year % 400 == 0))
+        return 29;
+    return days[month];
+}
+
+#endif
+
+
 char*
 blogc_convert_datetime(const char *orig, const char *format,
     bc_error_t **err)
@@ -191,6 +205,13 @@ blogc_convert_datetime(const char *orig, const char *format,
                             tmp);
                         break;
                     }
+                    if (tmp > days_in_month(t.tm_year + 1900, t.tm_mon)) {
+                        *err = bc_error_new_printf(BLOGC_WARNING_DATETIME_PARSER,
+                            "Invalid day. Found %d, but the month has only "
+                            "%d days.", tmp,
+                            days_in_month(t.tm_year + 1900, t.tm_mon));
+                        break;
+                    }
                     t.tm_mday = tmp;
                     state = DATETIME_SPACE;
                     break;
@@ -324,7 +345,9 @@ blogc_convert_datetime(const char *orig, const char *format,
                 break;
 
             case DATETIME_DONE:
-                // well, its done ;)
+                *err = bc_error_new_printf(BLOGC_WARNING_DATETIME_PARSER,
+                    "Invalid datetime string. Found '%s' after seconds.",
+                    orig + i);
                 break;
         }
 
-- 
2.43.0


From 205e964c69377d06e469bdec7fb8ed26ed9a3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 40/45] fix: keep the declared time when it does not exist in
 the timezone of the system

---
 src/blogc/datetime-parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blogc/datetime-parser.c b/src/blogc/datetime-parser.c
index 31d6e3e..27323d9 100644
--- a/src/blogc/datetime-parser.c
+++ b/src/blogc/datetime-parser.c
@@ -388,7 +388,18 @@ blogc_convert_datetime(const char *orig, const char *format,
         }
     }
 
+    // mktime(3) completes the structure (day of week, day of year, timezone),
+    // but it also moves a time that does not exist in the timezone of the
+    // system (e.g. when daylight saving starts). the time must be kept as
+    // declared.
+    struct tm declared = t;
     mktime(&t);
+    t.tm_year = declared.tm_year;
+    t.tm_mon = declared.tm_mon;
+    t.tm_mday = declared.tm_mday;
+    t.tm_hour = declared.tm_hour;
+    t.tm_min = declared.tm_min;
+    t.tm_sec = declared.tm_sec;
 
     char buf[1024];
     if (0 == strftime(buf, sizeof(buf), format, &t)) {
-- 
2.43.0


From eeb5f17e8fdbdc9cd33d245d0634d586b7985218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 41/45] fix: remember the result of the docker detection

---
 src/blogc/sysinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/sysinfo.c b/src/blogc/sysinfo.c
index 3eee530..b7e2de3 100644
--- a/src/blogc/sysinfo.c
+++ b/src/blogc/sysinfo.c
@@ -134,7 +134,7 @@ blogc_sysinfo_get_inside_docker(void)
         return inside_docker;
     }
 
-    bool inside_docker = NULL != strstr(contents, "/docker/");
+    inside_docker = NULL != strstr(contents, "/docker/");
     free(contents);
     return inside_docker;
 }
-- 
2.43.0


From 293f8e7c9790e0e933d019b83b2fd161d15a937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:30 +0000
Subject: [PATCH 42/45] fix: blogc -p "" does not read before the start of the
 empty variable name

---
 src/blogc/renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index a4a3577..fbc0d03 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -109,7 +109,7 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
     long int len = -1;
 
     // just walk till the last '_'
-    for (i = last - 1; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
+    for (i = last > 0 ? last - 1 : 0; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
 
     if (var[i] == '_' && (i + 1) < last) {  // var ends with '_[0-9]+'
         char *endptr;
-- 
2.43.0


From dec51cddd6a2e9183e88df5b418888c000c08170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 43/45] fix: reject templates that end inside a statement

---
 src/blogc/template-parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 314447d..8275285 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -649,6 +649,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         if (state == TEMPLATE_BLOCK_IF_STRING_OPERAND)
             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
                 start2, "Found an open double-quoted string.");
+        else if (state != TEMPLATE_START && state != TEMPLATE_OPEN_BRACKET)
+            *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
+                src_len, "Unfinished statement.");
         else if (if_count != 0)
             *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
                 "%zu open 'if', 'ifdef' and/or 'ifndef' statements were not closed!",
-- 
2.43.0


From 54afb7a41d7435d79005d6bc44828dce0c6eafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 44/45] fix: keep the text after the last statement if its
 second to last character is a bracket

---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 8275285..d632931 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -141,7 +141,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 }
                 state = TEMPLATE_START;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From b9f0419e751aa363a4597a653364cf98b9fddb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:15 +0000
Subject: [PATCH 45/45] fix: reject misnested statements and a second else
 after a nested conditional

---
 src/blogc/template-parser.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index d632931..128a24d 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,7 +54,6 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
-    bool else_open = false;
     bool foreach_open = false;
     bool block_foreach_open = false;
 
@@ -81,6 +80,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     bool block_open = false;
 
+    // open 'foreach' (f) and conditional (i, or e after its 'else') statements
+    bc_string_t *stack = bc_string_new();
+
     while (current < src_len) {
         char c = src[current];
         bool last = current == src_len - 1;
@@ -228,7 +230,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(stack, 'i');
                         break;
                     }
                     else if ((current - start == 6) &&
@@ -238,7 +240,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFNDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(stack, 'i');
                         break;
                     }
                     else if ((current - start == 2) &&
@@ -248,19 +250,20 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(stack, 'i');
                         break;
                     }
                     else if ((current - start == 4) &&
                         (0 == strncmp("else", src + start, 4)))
                     {
-                        if ((block_open && if_count > block_if_count) ||
-                            (!block_open && if_count > 0))
+                        if (((block_open && if_count > block_if_count) ||
+                            (!block_open && if_count > 0)) &&
+                            stack->str[stack->len - 1] != 'f')
                         {
-                            if (!else_open) {
+                            if (stack->str[stack->len - 1] != 'e') {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                                 type = BLOGC_TEMPLATE_NODE_ELSE;
-                                else_open = true;
+                                stack->str[stack->len - 1] = 'e';
                                 break;
                             }
                             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -278,13 +281,14 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     else if ((current - start == 5) &&
                         (0 == strncmp("endif", src + start, 5)))
                     {
-                        if ((block_open && if_count > block_if_count) ||
-                            (!block_open && if_count > 0))
+                        if (((block_open && if_count > block_if_count) ||
+                            (!block_open && if_count > 0)) &&
+                            stack->str[stack->len - 1] != 'f')
                         {
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
                             if_count--;
-                            else_open = false;
+                            stack->str[--stack->len] = '\0';
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -301,6 +305,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             type = BLOGC_TEMPLATE_NODE_FOREACH;
                             start = current;
                             foreach_open = true;
+                            bc_string_append_c(stack, 'f');
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -311,12 +316,14 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     else if ((current - start == 10) &&
                         (0 == strncmp("endforeach", src + start, 10)))
                     {
-                        if ((block_open && !block_foreach_open && foreach_open) ||
-                            (!block_open && foreach_open))
+                        if (((block_open && !block_foreach_open && foreach_open) ||
+                            (!block_open && foreach_open)) &&
+                            stack->str[stack->len - 1] == 'f')
                         {
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDFOREACH;
                             foreach_open = false;
+                            stack->str[--stack->len] = '\0';
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -645,6 +652,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         current++;
     }
 
+    bc_string_free(stack, true);
+
     if (*err == NULL) {
         if (state == TEMPLATE_BLOCK_IF_STRING_OPERAND)
             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
-- 
2.43.0

