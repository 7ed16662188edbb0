From e00000caa283aadea54fa0cac2a3032fec6960ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 01/57] fix: read tokens across buffer boundaries and lines

The reader told the lexer that the input ended after every line or 1 KB
chunk: a token straddling a chunk was split, a token longer than the
buffer hung the reader and a string spanning lines silently swallowed the
rest of the input.
---
 lib/core/read.c      | 21 ++++++++++++++++++---
 lib/grammar/lexer.rl |  9 ++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/core/read.c b/lib/core/read.c
index 4dd83f8..22428a8 100644
--- a/lib/core/read.c
+++ b/lib/core/read.c
@@ -58,15 +58,30 @@ lisp_read(const lisp_t lisp, const atom_t cell)
   FILE* handle = (FILE*)hnd->number;
   /*
    */
-  char buffer[RBUFLEN] = { 0 };
+  size_t capacity = RBUFLEN;
+  char* buffer = (char*)malloc(capacity);
   do {
-    char* p = fgets(buffer + lexer->rem, RBUFLEN - lexer->rem, handle);
+    /*
+     * Make room for a full chunk after the pending prefix of a token.
+     */
+    if (capacity - lexer->rem < RBUFLEN) {
+      capacity <<= 1;
+      buffer = (char*)realloc(buffer, capacity);
+    }
+    char* p = fgets(buffer + lexer->rem, RBUFLEN, handle);
     if (p == NULL) {
+      /*
+       * The end of the stream terminates the pending token, if any.
+       */
+      if (lexer->rem > 0) {
+        lexer_parse(lexer, buffer, lexer->rem, true);
+      }
       break;
     }
     size_t len = strlen(p);
-    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN);
+    lexer_parse(lexer, buffer, lexer->rem + len, feof(handle) != 0);
   } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));
+  free(buffer);
   /*
    * Grab the result and return it.
    */
diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 7361b6c..0d2c50e 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -176,7 +176,7 @@ marks   = [!@$%&*_+\-={}\[\]:;|\\<>?,./];
 symbol  = (alpha | marks) . (alnum | marks){,15} $!parse_error;
 comment = '#' . [^\n]*;
 
-purge := any* %{ fgoto main; };
+purge := [^\n]* '\n' @{ fgoto main; };
 
 main := |*
   # 
@@ -245,6 +245,13 @@ void
 lexer_parse(const lexer_t lexer, char * const str, const size_t len,
                  const bool end)
 {
+  /*
+   * The buffer may have moved since the prefix was saved.
+   */
+  if (lexer->rem > 0) {
+    te = str + (te - ts);
+    ts = str;
+  }
   const char* p = str + lexer->rem;
   const char* pe = str + len;
   const char* eof = end ? pe : 0;
-- 
2.43.0


From 71fbfafb1f179fa131681945e7ea81932b0cd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 02/57] fix: release the atoms of an unfinished expression

An expression cut short by the end of the input or by a syntax error
leaked the atoms built so far.
---
 lib/grammar/parser.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 49b2e72..9cbf6fc 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -6,6 +6,11 @@
 %type prefix { atom_t }
 %type item  { atom_t }
 
+%destructor list   { X(lexer->lisp, $$); }
+%destructor items  { X(lexer->lisp, $$); }
+%destructor prefix { X(lexer->lisp, $$); }
+%destructor item   { X(lexer->lisp, $$); }
+
 %include
 {
 #include <mnml/lisp.h>
-- 
2.43.0


From 0543bcb2818abcf9afd6e1187b35067e57ed7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 03/57] fix: readline returns the bytes of the line

The last character of an unterminated last line was dropped and backslash
sequences in the data were rewritten.
---
 lib/mnml/io/readline.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index 1cef7fe..0a8452c 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -15,20 +15,23 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   size_t cap = 0;
   ssize_t len = getline(&line, &cap, handle);
   if (len < 0) {
+    free(line);
     MAKE_SYMBOL_STATIC(eof_s, "EOF");
     return lisp_make_symbol(lisp, eof_s);
   }
   /*
    * Remove the extra newline character.
    */
-  if (len > 0 && line[len - 1] != 0) {
-    line[len - 1] = 0;
+  if (len > 0 && line[len - 1] == '\n') {
     len -= 1;
   }
   /*
-   * Produce the result.
+   * Produce the result. The line is data, its escapes are not processed.
    */
-  atom_t res = lisp_make_string(lisp, line, len);
+  atom_t res = lisp_make_nil(lisp);
+  for (ssize_t i = len; i > 0; i -= 1) {
+    res = lisp_cons(lisp, lisp_make_char(lisp, line[i - 1]), res);
+  }
   free(line);
   return res;
 }
-- 
2.43.0


From f68bceb31b7a410dc62b6a506b3f34e93d3d8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 04/57] fix: do not drop what precedes a NIL in a printed list

---
 lib/core/print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 19ded27..62c3fb3 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -69,7 +69,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
 {
   switch (cell->type) {
     case T_NIL:
-      return s ? lisp_write(handle, buf, idx, "NIL", 3) : 0;
+      return s ? lisp_write(handle, buf, idx, "NIL", 3) : idx;
     case T_TRUE:
       return lisp_write(handle, buf, idx, "T", 1);
     case T_CHAR: {
@@ -123,7 +123,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
     case T_WILDCARD:
       return lisp_write(handle, buf, idx, "_", 1);
     default:
-      return 0;
+      return idx;
   }
 }
 
-- 
2.43.0


From 75ac2cf8c5f5f212c3d6d99509643d60d42e6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 05/57] fix: write the newline of prinl and printl with its
 line

The newline stayed in the stdio buffer: it was lost when the process was
replaced or killed.
---
 lib/mnml/io/prinl.c  | 4 +++-
 lib/mnml/io/printl.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/io/prinl.c b/lib/mnml/io/prinl.c
index 2a3fbd5..5772c14 100644
--- a/lib/mnml/io/prinl.c
+++ b/lib/mnml/io/prinl.c
@@ -33,7 +33,9 @@ lisp_function_prinl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_prinl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, handle);
+  fflush(handle);
   return res;
 }
 
diff --git a/lib/mnml/io/printl.c b/lib/mnml/io/printl.c
index 40917b2..d1373f6 100644
--- a/lib/mnml/io/printl.c
+++ b/lib/mnml/io/printl.c
@@ -36,7 +36,9 @@ lisp_function_printl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_printl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, handle);
+  fflush(handle);
   return res;
 }
 
-- 
2.43.0


From 97615c3f84611738869736176d6056789bcba222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 06/57] fix: flush pending output before forking

Output still in the stdio buffers was written by the parent and the child.
---
 lib/mnml/unix/fork.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mnml/unix/fork.c b/lib/mnml/unix/fork.c
index 2899fef..4bb431e 100644
--- a/lib/mnml/unix/fork.c
+++ b/lib/mnml/unix/fork.c
@@ -2,11 +2,16 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 #include <errno.h>
+#include <stdio.h>
 #include <unistd.h>
 
 static atom_t USED
 lisp_function_fork(const lisp_t lisp, UNUSED const atom_t closure)
 {
+  /*
+   * Pending output must not be written by both processes.
+   */
+  fflush(NULL);
   pid_t pid = fork();
   return lisp_make_number(lisp, pid < 0 ? errno : pid);
 }
-- 
2.43.0


From 0b27f254b77c6771e7c5e775b66ecac65153a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 07/57] fix: leave the script offset alone when exec fails

The exit handlers of the child moved the offset of the script it shares
with its parent, which then evaluated the same expressions again.
---
 lib/mnml/unix/exec.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index c4f592e..f060f41 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -64,8 +64,13 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    * Call execve.
    */
   execve(buffer, arg_str, len == 0 ? environ : env_str);
-  printf("%s\n", strerror(errno));
-  exit(errno);
+  const int err = errno;
+  printf("%s\n", strerror(err));
+  fflush(stdout);
+  /*
+   * Skip the exit handlers: they rewind the script shared with the parent.
+   */
+  _exit(err);
 }
 
 LISP_MODULE_SETUP(exec, exec, PATH, ARGS, ENVP, NIL)
-- 
2.43.0


From 79983c86743f3e38f4f264ef26ee58fafd1dcb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 08/57] fix: REPL prints answers and parse errors in order
 before reading on

Parse errors bypassed the output buffer and overtook what was printed
before them, and the end of an answer was held back until the next
expression when the output was not a terminal.
---
 bin/mnml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index a862ae2..db4f2ed 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -53,10 +53,11 @@ run(const lisp_t lisp, stage_t pread, const stage_t pdone, const void* data)
 static void
 repl_parse_error_handler(const lisp_t lisp)
 {
-  write(1, "^ parse error\n", 14);
+  fwrite("^ parse error\n", 1, 14, stdout);
   if (IS_NULL(CDR(CDR(CAR(lisp->ichan))))) {
     fwrite(": ", 1, 2, stdout);
   }
+  fflush(stdout);
 }
 
 static void
@@ -66,6 +67,7 @@ stage_prompt(const lisp_t lisp, UNUSED const atom_t cell,
   if (IS_NULL(CDR(CDR(CAR(lisp->ichan))))) {
     fwrite(": ", 1, 2, stdout);
   }
+  fflush(stdout);
 }
 
 static void
-- 
2.43.0


From 26b9fda8d4907005e079ca01345a35dffb672b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:37 +0000
Subject: [PATCH 09/57] fix: def releases a name that is not a symbol

---
 lib/mnml/std/def.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index 92be82f..a9879a2 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -12,6 +12,7 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t symb = lisp_car(lisp, ANY);
   if (!IS_SYMB(symb)) {
+    X(lisp, symb);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From f928d994b7aab0bdcf562753c0d382437df16a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 10/57] fix: <- returns the previous value and releases its
 arguments

---
 lib/mnml/std/set.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 742c6e4..e1d6388 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -13,6 +13,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t sym = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t val = lisp_eval(lisp, C, lisp_car(lisp, cdr));
+  X(lisp, cdr);
   /*
    * Check if sym is a symbol.
    */
@@ -40,14 +41,15 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t elt = lisp_cons(lisp, sym, val);
   atom_t res = lisp_tree_upd(lisp, lisp->globals, elt);
   if (!IS_NULL(res)) {
-    return res;
+    atom_t old = lisp_cdr(lisp, res);
+    X(lisp, res);
+    return old;
   }
-  X(lisp, res);
   /*
    * The symbol was not found.
    */
-  X(lisp, sym, val);
-  return lisp_make_nil(lisp);
+  X(lisp, elt);
+  return res;
 }
 
 /* clang-format off */
-- 
2.43.0


From e3bfce5abbf9def308716261fbbdbc567c9596b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 11/57] fix: release the symbol list and the library of a
 module that fails to load

---
 lib/core/module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index ad1ef96..f9192e6 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -198,6 +198,7 @@ module_load_at_path(const char* const path, const char* const name)
   const char* (*get_name)() = dlsym(handle, "lisp_module_name");
   if (get_name == NULL) {
     ERROR("%s is not a module", path);
+    dlclose(handle);
     return NULL;
   }
   /*
@@ -367,6 +368,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
      */
     handle = module_load_at_path(path, bsym);
     if (handle == NULL) {
+      X(lisp, symbols);
       return lisp_make_nil(lisp);
     }
     /*
@@ -380,6 +382,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
   const module_entry_t* (*entries)() = dlsym(handle, "lisp_module_entries");
   if (entries == NULL) {
     DLCLOSE(add_to_cache, handle);
+    X(lisp, symbols);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From b47904c397743dd0ed4bbdde52a7100ecb61c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 12/57] fix: close ignores what is not a descriptor

Closing NIL, the result of a failed pipe, closed the standard input.
---
 lib/mnml/unix/close.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/unix/close.c b/lib/mnml/unix/close.c
index beda205..df6d042 100644
--- a/lib/mnml/unix/close.c
+++ b/lib/mnml/unix/close.c
@@ -10,7 +10,7 @@ lisp_close(const lisp_t lisp, const atom_t closure, const atom_t cell,
   if (!IS_NULL(cell)) {
     atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, cell));
     atom_t cdr = lisp_cdr(lisp, cell);
-    int s = close((int)car->number);
+    int s = IS_NUMB(car) ? close((int)car->number) : -1;
     X(lisp, car, cell);
     return lisp_close(lisp, closure, cdr, res && s == 0);
   }
-- 
2.43.0


From b04397e2000f87b2ab3238c5cf8b650bb7a504a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 13/57] fix: run returns NIL when the pipe cannot be created

It read and closed the standard input of the caller instead.
---
 share/mnml/run.l | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/share/mnml/run.l b/share/mnml/run.l
index 4555189..f52dfb3 100644
--- a/share/mnml/run.l
+++ b/share/mnml/run.l
@@ -4,7 +4,7 @@
 	"rev.l"
 	'(io in readline)
 	'(logic =)
-	'(std let \ if cons prog)
+	'(std let \ if cons prog when)
 	'unix)
 
 (def readlines (result)
@@ -25,17 +25,18 @@
 (def run (path args env)
 	"Run process at PATH with arguments ARG and environment ENV."
 	(let ((fenv					. (map (\ ((k . v)) (append k (cons ^= v))) env))
-				((pin . pout) . (pipe))
-				(pid					. (fork)))
-		(if (= pid 0)
-			(prog
-				(dup pout 1)
-				(close pin pout)
-				(exec path args fenv))
-			(prog
-				(close pout)
-				(let ((lines . (in pin (readlines NIL)))
-							(code	. (wait pid)))
-					(close pin)
-					(cons code lines))
-				))))
+				((pin . pout) . (pipe)))
+		(when pin
+			(let ((pid . (fork)))
+				(if (= pid 0)
+					(prog
+						(dup pout 1)
+						(close pin pout)
+						(exec path args fenv))
+					(prog
+						(close pout)
+						(let ((lines . (in pin (readlines NIL)))
+									(code	. (wait pid)))
+							(close pin)
+							(cons code lines))
+						))))))
-- 
2.43.0


From 7c590d9d2a6c62a1d252254c6d8aff026e85a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 14/57] fix: report a failed allocation of the interpreter
 memory

---
 bin/mnml.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/mnml.c b/bin/mnml.c
index db4f2ed..5d51ce9 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -304,6 +304,10 @@ main(const int argc, char** const argv)
    * Create a lisp context.
    */
   slab_t slab = slab_new();
+  if (slab == NULL) {
+    fprintf(stderr, "Cannot allocate the interpreter memory.\n");
+    return __LINE__;
+  }
   lisp_t lisp = lisp_new(slab);
   /*
    * Setup the debug variables.
-- 
2.43.0


From 23a4a551f1171885d21a4db4e3e325b9bd52e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:07 +0000
Subject: [PATCH 15/57] fix: select looks at its arguments and calls its
 callbacks

It took the error callback for the descriptor list, and closed the
standard input when the list held something else than a number.
---
 lib/mnml/unix/select.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index ab82f0a..c160dd7 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -88,7 +88,9 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     }
     case T_NIL: {
       X(lisp, act);
-      close(CAR(fds)->number);
+      if (IS_NUMB(CAR(fds))) {
+        close((int)CAR(fds)->number);
+      }
       return process_r(lisp, closure, CDR(fds), cb, set);
     }
     default: {
@@ -102,8 +104,17 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
 
 static atom_t
 process(const lisp_t lisp, const atom_t closure, const atom_t fds,
-        const char* const cb_name, const fd_set* const set)
+        const atom_t cb, const char* const cb_name, const fd_set* const set)
 {
+  /*
+   * Without a callback, all the descriptors are kept.
+   */
+  if (IS_NULL(cb)) {
+    return lisp_dup(lisp, fds);
+  }
+  /*
+   * Call the callback by its name in the closure.
+   */
   MAKE_SYMBOL_STATIC(cb_s, cb_name);
   atom_t cbk = lisp_make_symbol(lisp, cb_s);
   atom_t res = process_r(lisp, closure, fds, cbk, set);
@@ -114,7 +125,7 @@ process(const lisp_t lisp, const atom_t closure, const atom_t fds,
 static atom_t USED
 lisp_function_select(const lisp_t lisp, const atom_t closure)
 {
-  LISP_ARGS(closure, C, FDS);
+  LISP_ARGS(closure, C, FDS, ON_READ, ON_ERROR);
   /*
    * Check that the fds argument is a list.
    */
@@ -139,8 +150,8 @@ lisp_function_select(const lisp_t lisp, const atom_t closure)
   /*
    * Process the events.
    */
-  atom_t rres = process(lisp, C, FDS, "ON_READ", &rset);
-  atom_t eres = process(lisp, C, FDS, "ON_ERROR", &eset);
+  atom_t rres = process(lisp, closure, FDS, ON_READ, "ON_READ", &rset);
+  atom_t eres = process(lisp, closure, FDS, ON_ERROR, "ON_ERROR", &eset);
   /*
    * Build the result.
    */
-- 
2.43.0


From 68c383ae8813ba994d5850ef24c0a5b9c15a221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:07 +0000
Subject: [PATCH 16/57] fix: http/serve keeps listening when a connection
 cannot be accepted

---
 share/mnml/http.l | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index e5ac621..0d226e6 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -101,9 +101,12 @@
 (def http/ingress (srv fn fd)
 	"On-read server callback."
 	(if (= srv fd)
-		(let (((fd . (host . port)) . (accept fd)))
-			(prinl "Accepting connection from " host ":" port)
-			fd)
+		(let (((conn . (host . port)) . (accept fd)))
+			(if conn
+				(prog
+					(prinl "Accepting connection from " host ":" port)
+					conn)
+				fd))
 		(in fd
 			(let (((op path hdrs body) . (http/request)))
 				(when op
-- 
2.43.0


From 2900693de2151c2d1e97f89268ca9b983609a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:07 +0000
Subject: [PATCH 17/57] fix: http/serve listens on its port until its socket
 goes away

It ignored PORT and stopped as soon as the last client was gone.
---
 share/mnml/http.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 0d226e6..e7922cb 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -125,11 +125,11 @@
 
 (def http/serve (port cb)
 	"Start a HTTP server on PORT, using CB as a request handler."
-	(let ((srv . (listen 8080))
-				(fds . (list srv))
-				(run . T))
+	(let ((srv . (listen port))
+				(fds . (when srv (list srv)))
+				(run . srv))
 		(while run
 			(let (((r e) . (select fds (http/ingress srv cb) NIL)))
 				(<- 'fds r)
-				(<- 'run (> (len fds) 1))
+				(<- 'run fds)
 				))))
-- 
2.43.0


From 9821c2fe58d4294e34e999efb7d11edc814a375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:07 +0000
Subject: [PATCH 18/57] fix: trim terminates

or is not curried anymore: every character was taken for a white space and
trimming never ended.
---
 share/mnml/trim.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/mnml/trim.l b/share/mnml/trim.l
index 84a6b3c..f4b703b 100644
--- a/share/mnml/trim.l
+++ b/share/mnml/trim.l
@@ -2,11 +2,11 @@
 	"iterators.l"
 	"rev.l"
 	'(logic = or)
-	'(std \ |> car cdr cons if))
+	'(std \ car cdr cons if))
 
 (def whitespace? (chr)
 	"Return T if CHR is a white space."
-	(|> (= chr ^ ) (or (= chr ^\t)) (or (= chr ^\n)) (or (= chr ^\r))))
+	(or (= chr ^ ) (or (= chr ^\t) (or (= chr ^\n) (= chr ^\r)))))
 
 (def triml (strn)
 	"Trim STRN of leading white spaces."
-- 
2.43.0


From af7cf54986b408c0150d21875882344039aacdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:48 +0000
Subject: [PATCH 19/57] fix: run reads any number of lines in constant stack

---
 share/mnml/run.l | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/share/mnml/run.l b/share/mnml/run.l
index f52dfb3..5e9d220 100644
--- a/share/mnml/run.l
+++ b/share/mnml/run.l
@@ -7,13 +7,16 @@
 	'(std let \ if cons prog when)
 	'unix)
 
+(def readlines/next (line result)
+	"Accumulate LINE and the lines that follow it."
+	(if (= line 'EOF)
+		(rev result)
+		(readlines/next (readline) (cons line result))
+		))
+
 (def readlines (result)
 	"Read all lines from FD."
-	(let ((line . (readline)))
-		(if (= line 'EOF)
-			(rev result)
-			(readlines (cons line result))
-			)))
+	(readlines/next (readline) result))
 
 #
 # Run process at PATH with arguments ARG and environment ENV:
-- 
2.43.0


From f2b029d0bc5b0e2f49d46a2acac3a8d6b6e2012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 20/57] fix: http reads header values as sent and any number of
 headers and fields

---
 share/mnml/http.l | 51 +++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index e7922cb..27e1462 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -1,12 +1,9 @@
 (load
 	"@lib/append.l"
 	"@lib/iter.l"
-	"@lib/join.l"
-	"@lib/split.l"
+	"@lib/rev.l"
 	"@lib/trim.l"
 	'(io in out prinl printl readline)
-	'(iterators foldl)
-	'(manips cadr caddr cddr)
 	'(logic = or)
 	'(math >)
 	'(std \ <- car cons if len let list match nil? prog unless when while)
@@ -16,31 +13,31 @@
 # HTTP methods.
 #
 
-(def http/headers (result)
-	"Parse all HTTP headers."
-	(let ((line . (readline))
-				(tlne . (trim line)))
-		(if (or (nil? tlne) (= line 'EOF))
-			(foldl (\ (acc e) 
-							 (let (((hd . tl) . (split e ^:))
-										 (rem . (join tl ^:)))
-								 (cons (cons (trim hd) (trim rem)) acc)))
-				NIL result)
-			(http/headers (cons tlne result))
-			)))
+(def http/cut (chr line beg)
+	"Cut LINE at its first CHR."
+	(if (or (nil? line) (= (car line) chr))
+		(cons (trim (rev beg)) (trim (cdr line)))
+		(http/cut chr (cdr line) (cons (car line) beg))
+		))
+
+(def http/headers (line result)
+	"Parse all HTTP headers, starting with LINE."
+	(if (or (nil? (trim line)) (= line 'EOF))
+		(rev result)
+		(http/headers (readline) (cons (http/cut ^: (trim line) NIL) result))
+		))
 
 (def http/request ()
 	"Process a HTTP request."
 	(let ((line . (readline))
-				(tlne . (trim line))
-				(rqst . (split tlne ^ )))
+				((op . rest) . (http/cut ^  (trim line) NIL))
+				((path . vers) . (http/cut ^  rest NIL)))
 		(unless (= line 'EOF)
-			(match rqst
+			(match (list op path vers)
 				#
 				# Match HTTP requests.
 				#
-				((_ _ "HTTP/1.1")	. (let (((op path _) . rqst)
-																	(headers . (http/headers NIL)))
+				((_ _ "HTTP/1.1")	. (let ((headers . (http/headers (readline) NIL)))
 															(list op path headers NIL)))
 				#
 				# Handle invalid request, drop the connection.
@@ -53,17 +50,15 @@
 (def http/response ()
 	"Process a HTTP response."
 	(let ((line . (readline))
-				(tlne . (trim line))
-				(resp . (split tlne ^ )))
+				((vers . rest) . (http/cut ^  (trim line) NIL))
+				((code . mesg) . (http/cut ^  rest NIL)))
 		(unless (= line 'EOF)
-			(match resp
+			(match (list vers (nil? code))
 				#
 				# Response is HTTP/1.1
 				#
-				(("HTTP/1.1" _ . _)	. (let ((code . (cadr resp))
-																		(mesg . (join (cddr resp) ^ ))
-																		(hdrs . (http/headers NIL)))
-																(list code mesg hdrs)))
+				(("HTTP/1.1" NIL)	. (let ((hdrs . (http/headers (readline) NIL)))
+															(list code mesg hdrs)))
 				#
 				# Handle invalid response.
 				#
-- 
2.43.0


From 12e470a98494200c474fd328221c499e81bd4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 21/57] fix: http drops a request or response whose headers are
 incomplete

---
 share/mnml/http.l | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 27e1462..260f608 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -21,11 +21,13 @@
 		))
 
 (def http/headers (line result)
-	"Parse all HTTP headers, starting with LINE."
-	(if (or (nil? (trim line)) (= line 'EOF))
-		(rev result)
-		(http/headers (readline) (cons (http/cut ^: (trim line) NIL) result))
-		))
+	"Parse all HTTP headers, starting with LINE. Return EOF if they are incomplete."
+	(if (= line 'EOF)
+		'EOF
+		(if (nil? (trim line))
+			(rev result)
+			(http/headers (readline) (cons (http/cut ^: (trim line) NIL) result))
+			)))
 
 (def http/request ()
 	"Process a HTTP request."
@@ -38,7 +40,8 @@
 				# Match HTTP requests.
 				#
 				((_ _ "HTTP/1.1")	. (let ((headers . (http/headers (readline) NIL)))
-															(list op path headers NIL)))
+															(unless (= headers 'EOF)
+																(list op path headers NIL))))
 				#
 				# Handle invalid request, drop the connection.
 				#
@@ -58,7 +61,8 @@
 				# Response is HTTP/1.1
 				#
 				(("HTTP/1.1" NIL)	. (let ((hdrs . (http/headers (readline) NIL)))
-															(list code mesg hdrs)))
+															(unless (= hdrs 'EOF)
+																(list code mesg hdrs))))
 				#
 				# Handle invalid response.
 				#
-- 
2.43.0


From fd5ae55b1b9d093513f2bb6eaf0dce24f9732e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:34 +0000
Subject: [PATCH 22/57] fix: print writes a backslash character the way it is
 read

---
 lib/core/print.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/print.c b/lib/core/print.c
index 62c3fb3..4d471e0 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -89,6 +89,9 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
           case '\t':
             nxt = lisp_write(handle, buf, nxt, "\\t", 2);
             break;
+          case '\\':
+            nxt = lisp_write(handle, buf, nxt, "\\\\", 2);
+            break;
           default:
             nxt = lisp_write(handle, buf, nxt, &c, 1);
             break;
-- 
2.43.0


From efea6951acf1ca443ff50960c969df7f4cc1196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:30 +0000
Subject: [PATCH 23/57] fix: load returns NIL when the file cannot be read to
 its end

---
 lib/core/utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8fbdcf1..1ea4351 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -701,6 +701,14 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
     res = lisp_eval(lisp, nil, input);
   }
   X(lisp, nil);
+  /*
+   * A file that could not be read to its end is not loaded.
+   */
+  if (ferror(handle)) {
+    ERROR("Cannot read %s", path);
+    X(lisp, res);
+    res = lisp_make_nil(lisp);
+  }
   /*
    * Pop the context and return the value.
    */
-- 
2.43.0


From c727d2d51dc5dd89471ac1da1aa4b5788f66baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:30 +0000
Subject: [PATCH 24/57] fix: release a list of any length in constant stack

---
 lib/core/lisp.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/core/lisp.c b/lib/core/lisp.c
index f0e254c..d38fea6 100644
--- a/lib/core/lisp.c
+++ b/lib/core/lisp.c
@@ -51,22 +51,26 @@ void
 lisp_deallocate(const lisp_t lisp, const atom_t atom)
 {
   TRACE_SLAB_SEXP(atom);
+  atom_t cell = atom;
   /*
-   * Most likely this is a pair.
+   * Most likely this is a pair. Follow the list in constant stack.
    */
-  if (likely(IS_PAIR(atom))) {
-    if (likely(!IS_WEAKREF(atom))) {
-      X(lisp, CAR(atom));
+  while (likely(IS_PAIR(cell))) {
+    atom_t next = CDR(cell);
+    if (likely(!IS_WEAKREF(cell))) {
+      X(lisp, CAR(cell));
     }
-    X(lisp, CDR(atom));
-    slab_deallocate(lisp->slab, atom);
+    slab_deallocate(lisp->slab, cell);
+    DOWN(next);
+    if (next->refs != 0) {
+      return;
+    }
+    cell = next;
   }
   /*
    * Process atoms.
    */
-  else {
-    slab_deallocate(lisp->slab, atom);
-  }
+  slab_deallocate(lisp->slab, cell);
 }
 
 /*
-- 
2.43.0


From 57931580b6b0fa3f8adaa192819c09c41f623672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 25/57] fix: print a list of any length in constant stack

---
 lib/core/print.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 4d471e0..62b8b89 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -37,26 +37,27 @@ static size_t
 lisp_prin_pair(FILE* const handle, char* const buf, const size_t idx,
                const atom_t cell, const bool s)
 {
-  size_t nxt = 0;
+  size_t nxt = idx;
+  atom_t cur = cell;
   /*
-   * Print CAR.
+   * Print the elements, in constant stack.
    */
-  nxt = lisp_prin_atom(handle, buf, idx, CAR(cell), s);
+  nxt = lisp_prin_atom(handle, buf, nxt, CAR(cur), s);
+  while (IS_PAIR(CDR(cur))) {
+    cur = CDR(cur);
+    if (s) {
+      nxt = lisp_write(handle, buf, nxt, " ", 1);
+    }
+    nxt = lisp_prin_atom(handle, buf, nxt, CAR(cur), s);
+  }
   /*
-   * Print CDR.
+   * Print the last CDR.
    */
-  if (!IS_NULL(CDR(cell))) {
-    if (IS_PAIR(CDR(cell))) {
-      if (s) {
-        nxt = lisp_write(handle, buf, nxt, " ", 1);
-      }
-      return lisp_prin_pair(handle, buf, nxt, CDR(cell), s);
-    } else {
-      if (s) {
-        nxt = lisp_write(handle, buf, nxt, " . ", 3);
-      }
-      return lisp_prin_atom(handle, buf, nxt, CDR(cell), s);
+  if (!IS_NULL(CDR(cur))) {
+    if (s) {
+      nxt = lisp_write(handle, buf, nxt, " . ", 3);
     }
+    nxt = lisp_prin_atom(handle, buf, nxt, CDR(cur), s);
   }
   /*
    */
-- 
2.43.0


From 9241eaa442a55500486ecd5f0657413b46051ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:10 +0000
Subject: [PATCH 26/57] fix: discard a malformed line to its end when it is
 longer than the read buffer

---
 lib/grammar/lexer.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 0d2c50e..1ffe8b3 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -271,5 +271,5 @@ lexer_parse(const lexer_t lexer, char * const str, const size_t len,
 bool
 lexer_pending(const lexer_t lexer)
 {
-  return lexer->depth != 0 || lexer->rem > 0;
+  return lexer->depth != 0 || lexer->rem > 0 || cs == minimal_en_purge;
 }
-- 
2.43.0


From 62a595b7586e8c6546cd501a0a1a76cd8d843fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 27/57] fix: report an expression with a misplaced token and
 drop it

---
 include/mnml/lexer.h |   1 +
 lib/grammar/lexer.rl | 134 ++++++++++++++++++++++++++++++++-----------
 lib/grammar/parser.y |   7 ++-
 3 files changed, 105 insertions(+), 37 deletions(-)

diff --git a/include/mnml/lexer.h b/include/mnml/lexer.h
index 96728ab..6267b3c 100644
--- a/include/mnml/lexer.h
+++ b/include/mnml/lexer.h
@@ -20,6 +20,7 @@ typedef struct lexer
   const char* te;
   size_t depth;
   size_t rem;
+  bool failed;
   lisp_t lisp;
   lisp_consumer_t consumer;
   void* parser;
diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 1ffe8b3..78eeda0 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -19,6 +19,56 @@
 
 extern void parse_error(const lisp_t lisp);
 
+/*
+ * Feed a token to the parser, return false if it is not expected there.
+ */
+
+static bool
+lisp_feed(const lexer_t lexer, const int token, void * const value)
+{
+  if (!lexer->failed) {
+    Parse(lexer->parser, token, value, lexer);
+  }
+  return !lexer->failed;
+}
+
+/*
+ * Feed the prefix of a token, if any, then the token to the parser.
+ */
+
+static bool
+lisp_feed_prefixed(const lexer_t lexer, const int token, void * const value)
+{
+  switch (*ts) {
+    case '\'':
+      lisp_feed(lexer, CQUOTE, 0);
+      break;
+    case '`':
+      lisp_feed(lexer, BACKTICK, 0);
+      break;
+    case '~':
+      lisp_feed(lexer, TILDE, 0);
+      break;
+    default:
+      break;
+  }
+  return lisp_feed(lexer, token, value);
+}
+
+/*
+ * Drop the expression that contains an unexpected token.
+ */
+
+static void
+lisp_drop_expression(const lexer_t lexer)
+{
+  ParseFree(lexer->parser, free);
+  lexer->parser = ParseAlloc(malloc);
+  lexer->depth = 0;
+  lexer->failed = false;
+  parse_error(lexer->lisp);
+}
+
 static void
 lisp_consume_token(const lexer_t lexer)
 {
@@ -45,7 +95,10 @@ action parse_error
 
 action tok_popen
 {
-  Parse(lexer->parser, POPEN, 0, lexer);
+  if (!lisp_feed_prefixed(lexer, POPEN, 0)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lexer->depth += 1;
 }
 
@@ -55,29 +108,20 @@ action tok_pclose
     parse_error(lexer->lisp);
     fhold; fgoto purge;
   }
-  Parse(lexer->parser, PCLOSE, 0, lexer);
+  if (!lisp_feed(lexer, PCLOSE, 0)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lexer->depth -= 1;
   lisp_consume_token(lexer);
 }
 
 action tok_dot
 {
-  Parse(lexer->parser, DOT, 0, lexer);
-}
-
-action tok_quote
-{
-  Parse(lexer->parser, CQUOTE, 0, lexer);
-}
-
-action tok_backt
-{
-  Parse(lexer->parser, BACKTICK, 0, lexer);
-}
-
-action tok_tilde
-{
-  Parse(lexer->parser, TILDE, 0, lexer);
+  if (!lisp_feed(lexer, DOT, 0)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
 }
 
 action tok_number
@@ -88,7 +132,10 @@ action tok_number
   strncpy(val, start, len);
   val[len] = 0;
   int64_t value = strtoll(val, NULL, 10);
-  Parse(lexer->parser, NUMBER, (void *)value, lexer);
+  if (!lisp_feed_prefixed(lexer, NUMBER, (void *)value)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
@@ -120,7 +167,10 @@ action tok_char
   }
   /*
    */
-  Parse(lexer->parser, CHAR, (void *)val, lexer);
+  if (!lisp_feed(lexer, CHAR, (void *)val)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
@@ -132,25 +182,37 @@ action tok_string
   char * val = strndup(start, len);
   /*
    */
-  Parse(lexer->parser, STRING, val, lexer);
+  if (!lisp_feed(lexer, STRING, val)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
 action tok_nil
 { 
-  Parse(lexer->parser, C_NIL, 0, lexer);
+  if (!lisp_feed(lexer, C_NIL, 0)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
 action tok_true
 { 
-  Parse(lexer->parser, C_TRUE, 0, lexer);
+  if (!lisp_feed(lexer, C_TRUE, 0)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
 action tok_wildcard
 { 
-  Parse(lexer->parser, C_WILDCARD, 0, lexer);
+  if (!lisp_feed(lexer, C_WILDCARD, 0)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
@@ -159,7 +221,10 @@ action tok_symbol
   const char * start = UNPREFIX(ts);
   size_t len = te - start;
   MAKE_SYMBOL_DYNAMIC_N(sym, start, len);
-  Parse(lexer->parser, SYMBOL, sym, lexer);
+  if (!lisp_feed_prefixed(lexer, SYMBOL, sym)) {
+    lisp_drop_expression(lexer);
+    fhold; fgoto purge;
+  }
   lisp_consume_token(lexer);
 }
 
@@ -195,21 +260,21 @@ main := |*
   #
   # Escaped POPEN.
   #
-  (quote . popen) %tok_quote $!err_prefix => tok_popen;
-  (backt . popen) %tok_backt $!err_prefix => tok_popen;
-  (tilde . popen) %tok_tilde $!err_prefix => tok_popen;
+  (quote . popen) $!err_prefix => tok_popen;
+  (backt . popen) $!err_prefix => tok_popen;
+  (tilde . popen) $!err_prefix => tok_popen;
   #
   # Escaped SYMBOL.
   #
-  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
-  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
-  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
+  (quote . symbol) $!err_prefix => tok_symbol;
+  (backt . symbol) $!err_prefix => tok_symbol;
+  (tilde . symbol) $!err_prefix => tok_symbol;
   #
   # Escaped NUMBER.
   #
-  (quote . number) %tok_quote $!err_prefix => tok_number;
-  (backt . number) %tok_backt $!err_prefix => tok_number;
-  (tilde . number) %tok_tilde $!err_prefix => tok_number;
+  (quote . number) $!err_prefix => tok_number;
+  (backt . number) $!err_prefix => tok_number;
+  (tilde . number) $!err_prefix => tok_number;
   #
   # Garbage.
   #
@@ -228,6 +293,7 @@ lexer_create(const lisp_t lisp, const lisp_consumer_t consumer)
   %% write init;
   lexer->depth = 0;
   lexer->rem = 0;
+  lexer->failed = false;
   lexer->lisp = lisp;
   lexer->consumer = consumer;
   lexer->parser = ParseAlloc(malloc);
diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 9cbf6fc..0ba6ddd 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -17,17 +17,18 @@
 #include <mnml/utils.h>
 #include <stdlib.h>
 
-extern void syntax_error();
+extern void syntax_error(const lisp_t lisp);
 }
 
 %syntax_error
 {
-  syntax_error();
+  lexer->failed = true;
+  syntax_error(lexer->lisp);
 }
 
 %parse_failure
 {
-  syntax_error();
+  syntax_error(lexer->lisp);
 }
 
 root ::= prefix(A).
-- 
2.43.0


From d5aa7b51b8884898f29e3f8eeca12fffacfb4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:03 +0000
Subject: [PATCH 28/57] fix: report a missing or too long home directory

---
 lib/core/module.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index f9192e6..b304446 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -419,6 +419,14 @@ module_init(const lisp_t lisp)
    * Reset the MODULES variable.
    */
   lisp->modules = lisp_make_nil(lisp);
+  /*
+   * The user cache directory is in the home directory.
+   */
+  const char* const home = getenv("HOME");
+  if (home == NULL || strlen(home) + sizeof("/.mnml") > PATH_MAX) {
+    ERROR("Cannot use the home directory");
+    return false;
+  }
   /*
    * Try to create the user cache directory.
    */
-- 
2.43.0


From 3e48dd133087a083893fe7a4b38eb82fe7ffcaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:03 +0000
Subject: [PATCH 29/57] fix: run a script without PWD

---
 lib/core/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 1ea4351..2804fa6 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -650,7 +650,10 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
    * Get CWD.
    */
   if (IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, getenv("PWD"));
+    if (getcwd(absl_buf, PATH_MAX) == NULL) {
+      ERROR("Cannot get CWD for %s", filepath);
+      return lisp_make_nil(lisp);
+    }
   } else {
     lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX, 0);
   }
-- 
2.43.0


From fe71b56967fb436228eb1236414c712b2dc5e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 30/57] fix: evaluate what follows a NIL in the argument of -e

---
 bin/mnml.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index 5d51ce9..b42a70d 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -362,13 +362,9 @@ main(const int argc, char** const argv)
      * Evaluate the parsed expressions.
      */
     result = lisp_make_nil(lisp);
-    while (keep_running) {
+    while (keep_running && !IS_NULL(PAIRS)) {
       atom_t nil = lisp_make_nil(lisp);
       atom_t car = lisp_pop(lisp);
-      if (IS_NULL(car)) {
-        X(lisp, nil, car);
-        break;
-      }
       X(lisp, result);
       result = lisp_eval(lisp, nil, car);
       X(lisp, nil);
-- 
2.43.0


From fc8a53219041033cce97411dd75175feac7f1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:29 +0000
Subject: [PATCH 31/57] fix: write to a file without PWD

---
 lib/mnml/io/out.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d50821a..4427742 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -26,7 +26,13 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
    * Get the current working directory. Output files are expected to be relative
    * to where the program is run, not where the program is located.
    */
-  strcpy(dirn_buf, getenv("PWD"));
+  const char* const pwd = getenv("PWD");
+  if (pwd != NULL && strlen(pwd) < PATH_MAX) {
+    strcpy(dirn_buf, pwd);
+  } else if (getcwd(dirn_buf, PATH_MAX) == NULL) {
+    ERROR("Cannot get the current directory");
+    return lisp_make_nil(lisp);
+  }
   /*
    * Process the CHAN.
    */
-- 
2.43.0


From 55629d18fc20d8bfa7e4d68804f341ceca4d36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 32/57] fix: take arguments, environment and directories as
 they are

Backslashes in the arguments, in environment variables and in the names of
directories were processed as the escape sequences of a program's text.
---
 bin/mnml.c           |  8 ++++----
 include/mnml/utils.h | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index b42a70d..e8fb7c2 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -113,7 +113,7 @@ lisp_build_argv(const lisp_t lisp, const int argc, char** const argv)
    * Build ARGV.
    */
   for (int i = 0; i < argc; i += 1) {
-    atom_t str = lisp_make_string(lisp, argv[i], strlen(argv[i]));
+    atom_t str = lisp_make_text(lisp, argv[i], strlen(argv[i]));
     res = lisp_append(lisp, res, str);
   }
   /*
@@ -147,7 +147,7 @@ lisp_build_config(const lisp_t lisp)
    */
   MAKE_SYMBOL_STATIC(prefix, "PREFIX");
   key = lisp_make_symbol(lisp, prefix);
-  val = lisp_make_string(lisp, lisp_prefix(), strlen(lisp_prefix()));
+  val = lisp_make_text(lisp, lisp_prefix(), strlen(lisp_prefix()));
   con = lisp_cons(lisp, key, val);
   res = lisp_cons(lisp, con, res);
   /*
@@ -197,8 +197,8 @@ lisp_build_env(const lisp_t lisp)
     char* n = strstr(*p, "=");
     if (n != NULL && *(n + 1) != 0) {
       size_t len = n - *p;
-      atom_t key = lisp_make_string(lisp, *p, len);
-      atom_t val = lisp_make_string(lisp, n + 1, strlen(n + 1));
+      atom_t key = lisp_make_text(lisp, *p, len);
+      atom_t val = lisp_make_text(lisp, n + 1, strlen(n + 1));
       atom_t con = lisp_cons(lisp, key, val);
       res = lisp_append(lisp, res, con);
     }
diff --git a/include/mnml/utils.h b/include/mnml/utils.h
index 8a47b38..91d411f 100644
--- a/include/mnml/utils.h
+++ b/include/mnml/utils.h
@@ -128,13 +128,28 @@ lisp_symbol_compare(const atom_t a, const symbol_t b)
   return memcmp(a->symbol.val, b->val, LISP_SYMBOL_LENGTH);
 }
 
+/*
+ * Make a string of the bytes of STR as they are. Escape sequences are left
+ * alone: they mean something in the text of a program only.
+ */
+
+ALWAYS_INLINE inline atom_t
+lisp_make_text(const lisp_t lisp, const char* const str, const size_t len)
+{
+  atom_t res = lisp_make_nil(lisp);
+  for (size_t i = len; i > 0; i -= 1) {
+    res = lisp_cons(lisp, lisp_make_char(lisp, str[i - 1]), res);
+  }
+  return res;
+}
+
 /*
  * IO context helpers.
  */
 
 #define PUSH_IO_CONTEXT(__l, __c, __d, __p)             \
   do {                                                  \
-    atom_t p = lisp_make_string(__l, __p, strlen(__p)); \
+    atom_t p = lisp_make_text(__l, __p, strlen(__p));   \
     atom_t x = lisp_cons(__l, p, lisp_make_nil(__l));   \
     atom_t n = lisp_make_number(__l, (int64_t)(__d));   \
     atom_t y = lisp_cons(__l, n, x);                    \
-- 
2.43.0


From 35993d0a29e52f0189229af3d11691d5515064d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 33/57] fix: refuse a path that is too long instead of writing
 past its buffer

A name of about PATH_MAX bytes given to load, in or out crashed the
interpreter; so did a shorter one behind @lib or ~.
---
 lib/core/utils.c       | 34 ++++++++++++++++++++++++----------
 lib/mnml/io/in.c       |  2 +-
 lib/mnml/io/out.c      |  2 +-
 lib/mnml/unix/unlink.c |  2 +-
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 2804fa6..48ac98c 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -583,30 +583,36 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
 {
   char expn_buf[PATH_MAX];
   char absl_buf[PATH_MAX];
+  int len = 0;
   /*
    * Expand the path.
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      strcpy(expn_buf, getenv("MNML_SCRIPT_PATH"));
+      len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("MNML_SCRIPT_PATH"),
+                     &filepath[4]);
     } else {
-      strcpy(expn_buf, lisp_prefix());
-      strcat(expn_buf, "/share/mnml");
+      len = snprintf(expn_buf, PATH_MAX, "%s/share/mnml%s", lisp_prefix(),
+                     &filepath[4]);
     }
-    strcat(expn_buf, &filepath[4]);
   } else if (filepath[0] == '~' && getenv("HOME") != NULL) {
-    strcpy(expn_buf, getenv("HOME"));
-    strcat(expn_buf, &filepath[1]);
+    len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("HOME"), &filepath[1]);
   } else {
-    strcpy(expn_buf, filepath);
+    len = snprintf(expn_buf, PATH_MAX, "%s", filepath);
+  }
+  if (len < 0 || len >= PATH_MAX) {
+    ERROR("Path is too long: %s", filepath);
+    return NULL;
   }
   /*
    * If the expanded path is not absolute, prepend the current CWD.
    */
   if (expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, cwd);
-    strcat(absl_buf, "/");
-    strcat(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s/%s", cwd, expn_buf);
+    if (len < 0 || len >= PATH_MAX) {
+      ERROR("Path is too long: %s", filepath);
+      return NULL;
+    }
   } else {
     strcpy(absl_buf, expn_buf);
   }
@@ -625,6 +631,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   while ((p = strstr(last, "/"))) {
     last = p + 1;
   }
+  if (last == absl_buf) {
+    ERROR("Cannot get realpath for %s", absl_buf);
+    return NULL;
+  }
   *(last - 1) = '\0';
   path = realpath(absl_buf, buffer);
   *(last - 1) = '/';
@@ -635,6 +645,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Return the full path.
    */
+  if (strlen(buffer) + strlen(last - 1) >= PATH_MAX) {
+    ERROR("Path is too long: %s", filepath);
+    return NULL;
+  }
   strcat(buffer, (last - 1));
   return path;
 }
diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 2a15749..7281fd1 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -15,7 +15,7 @@ static atom_t USED
 lisp_function_in(const lisp_t lisp, const atom_t closure)
 {
   int fd = 0;
-  char file_buf[PATH_MAX];
+  char file_buf[PATH_MAX + 1];
   char path_buf[PATH_MAX];
   char dirn_buf[PATH_MAX];
   /*
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index 4427742..5379236 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -15,7 +15,7 @@ static atom_t USED
 lisp_function_out(const lisp_t lisp, const atom_t closure)
 {
   int fd;
-  char file_buf[PATH_MAX];
+  char file_buf[PATH_MAX + 1];
   char path_buf[PATH_MAX];
   char dirn_buf[PATH_MAX];
   /*
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 4d47dfa..22e7cb3 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -17,7 +17,7 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
   /*
    * Convert the argument.
    */
-  char name_buf[PATH_MAX];
+  char name_buf[PATH_MAX + 1];
   lisp_make_cstring(NAME, name_buf, PATH_MAX, 0);
   /*
    * Call unlink().
-- 
2.43.0


From bdf856ee8b7b5f801bb43fd7b7193458baebe5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 34/57] fix: take a MNML_MODULE_PATH of any length

A value of more than 8 KB was written past the end of a buffer.
---
 lib/core/module.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index b304446..d21be6a 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -53,12 +53,15 @@ lisp_usercache_prefix()
 static char*
 module_paths()
 {
-  static bool is_set = false;
-  static char buffer[8192];
+  const char* const user = getenv("MNML_MODULE_PATH");
+  static char* buffer = NULL;
   /*
    * Prepare the path if not set.
    */
-  if (!is_set) {
+  if (buffer == NULL) {
+    buffer = (char*)malloc(strlen(lisp_library_prefix()) +
+                           strlen(lisp_usercache_prefix()) +
+                           (user != NULL ? strlen(user) : 0) + 3);
     /*
      * Set the system prefix first.
      */
@@ -71,13 +74,10 @@ module_paths()
     /*
      * Append the user-defined variable.
      */
-    if (getenv("MNML_MODULE_PATH") != NULL) {
+    if (user != NULL) {
       strcat(buffer, ":");
-      strcat(buffer, getenv("MNML_MODULE_PATH"));
+      strcat(buffer, user);
     }
-    /*
-     */
-    is_set = true;
   }
   /*
    * Return the paths.
@@ -144,6 +144,11 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /*
    * Build the file path.
    */
+  if (strlen(dirpath) + strlen(lib_name) + 2 > PATH_MAX) {
+    ERROR("path is too long: %s", dirpath);
+    closedir(dir);
+    return false;
+  }
   memset(path, 0, PATH_MAX);
   strcpy(path, dirpath);
   strcat(path, "/");
-- 
2.43.0


From b26b577364e5b7037ac272c42842df79ec26ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 35/57] fix: connect wrote past the end of its buffers

lisp_make_cstring terminates a string of 1024 or more bytes at index 1024.
---
 lib/mnml/unix/connect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index ccca91e..1f6ef5c 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -26,7 +26,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
   /*
    * Convert the address to a C string.
    */
-  char address[1024];
+  char address[1024 + 1];
   size_t len = lisp_make_cstring(ADDRESS, address, 1024, 0);
   if (len == 0) {
     TRACE("Cannot convert address to a C string");
@@ -35,7 +35,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
   /*
    * Convert the address to a C string.
    */
-  char service[1024];
+  char service[1024 + 1];
   len = lisp_make_cstring(PORT, service, 1024, 0);
   if (len == 0) {
     TRACE("Cannot convert service to a C string");
-- 
2.43.0


From 938892633889b46d4cbf4be434828987de703d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 36/57] fix: binding a builtin with let, or defining an empty
 body, crashed

---
 lib/core/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 48ac98c..5e96b67 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -524,6 +524,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   TRACE_TAIL_SEXP(symb);
   TRACE_TAIL_SEXP(args);
   TRACE_TAIL_SEXP(body);
+  /*
+   * The body of a builtin, or an empty body, has no tail.
+   */
+  if (!IS_PAIR(body)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
-- 
2.43.0


From c31dd9c195e66c1733685722d67c46d2dcede5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 37/57] fix: def without a body made something that is no
 function

---
 lib/mnml/std/def.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index a9879a2..ed8ef8f 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -29,11 +29,16 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t prog = lisp_cdr(lisp, cdr0);
   X(lisp, cdr0);
+  if (!IS_PAIR(prog)) {
+    X(lisp, symb, args, prog);
+    return lisp_make_nil(lisp);
+  }
   /*
-   * Check if there is a docstring in the declaration.
+   * Check if there is a docstring in the declaration. A string that is the only
+   * expression is the body.
    */
   atom_t doc = lisp_car(lisp, prog);
-  if (IS_PAIR(doc) && IS_CHAR(CAR(doc))) {
+  if (IS_PAIR(doc) && IS_CHAR(CAR(doc)) && IS_PAIR(CDR(prog))) {
     atom_t nxt = lisp_cdr(lisp, prog);
     X(lisp, prog);
     prog = nxt;
-- 
2.43.0


From da8c4e8d2335b9f2aacaed3c9409fcebb4a423be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 38/57] fix: MNML_SCRIPT_PATH was not searched as the list of
 directories it is documented to be

---
 lib/core/utils.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 5e96b67..320759d 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -583,6 +583,30 @@ lisp_timestamp()
  * Lisp load file.
  */
 
+static int
+lisp_find_script(const char* const cwd, const char* const paths,
+                 const char* const name, char* const buffer)
+{
+  const char* dir = paths;
+  while (true) {
+    /*
+     * Relative directories start at CWD.
+     */
+    const size_t n = strcspn(dir, ":");
+    const bool rel = n > 0 && dir[0] != '/';
+    const int len = snprintf(buffer, PATH_MAX, "%s%s%.*s%s", rel ? cwd : "",
+                             rel ? "/" : "", (int)n, dir, name);
+    /*
+     * Take the first directory that has the script, or the last one.
+     */
+    if (dir[n] == '\0' ||
+        (len >= 0 && len < PATH_MAX && access(buffer, F_OK) == 0)) {
+      return len;
+    }
+    dir += n + 1;
+  }
+}
+
 const char*
 lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
                   const char* const filepath, char* const buffer)
@@ -595,8 +619,8 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("MNML_SCRIPT_PATH"),
-                     &filepath[4]);
+      len = lisp_find_script(cwd, getenv("MNML_SCRIPT_PATH"), &filepath[4],
+                             expn_buf);
     } else {
       len = snprintf(expn_buf, PATH_MAX, "%s/share/mnml%s", lisp_prefix(),
                      &filepath[4]);
-- 
2.43.0


From 7c9d30307b5f95ef477a6b88356674390be1ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 39/57] fix: the usage of a test suite named its first option
 as the program

---
 share/mnml/test.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/test.l b/share/mnml/test.l
index 66d5443..a363597 100644
--- a/share/mnml/test.l
+++ b/share/mnml/test.l
@@ -13,7 +13,7 @@
 
 (def usage ()
   "Print out a usage string for the testsuite."
-  (let ((arg0 . (car (cdr ARGV)))
+  (let ((arg0 . (car ARGV))
         (prgn . (car (rev (split arg0 ^/)))))
     (prinl "Usage: " prgn " [-l|-t test1,test2,...|-h] ")
     (prinl)
-- 
2.43.0


From d9e71d6f5407d2cb215339d63d47a5d560c4acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 40/57] fix: compiled functions kept the values whose emptiness
 or kind they tested

---
 share/mnml/cc.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 68916f2..74f34f6 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -90,7 +90,8 @@
 								(prin "IS_NULL(")
 								(cc:value:atm ARGS kvar arg)
 								(prinl ") };")))
-			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))))
+			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))
+		(when (= kvar arg) (cc:gen:x ARGS kvar arg))))
 
 (def cc:op:num:one (ARGS TYPES kvar body)
 	"Generate C code for binary numeric operations."
-- 
2.43.0


From 8553d93465d2c645e55aaa4dbc408b3556ea6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 41/57] fix: functions of a compiled module wrote past the
 closures of smaller ones

---
 include/mnml/closure.h | 1 +
 lib/core/closure.c     | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mnml/closure.h b/include/mnml/closure.h
index bc76822..eaac3c5 100644
--- a/include/mnml/closure.h
+++ b/include/mnml/closure.h
@@ -20,6 +20,7 @@ typedef union value
 typedef struct closure
 {
   struct closure* C;
+  size_t N;
   value_t V[];
 }* closure_t;
 
diff --git a/lib/core/closure.c b/lib/core/closure.c
index 5554ff3..48510e3 100644
--- a/lib/core/closure.c
+++ b/lib/core/closure.c
@@ -3,20 +3,22 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MALLOC_SIZE(_N) (sizeof(closure_t) + (_N) * sizeof(atom_t))
+#define MALLOC_SIZE(_N) (sizeof(struct closure) + (_N) * sizeof(value_t))
 
 closure_t
 lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
 {
   closure_t result;
   /*
-   * Allocate the new closure, preferably from the cache.
+   * Allocate the new closure, preferably from the cache. The cache is shared by
+   * the functions of a module, make sure that the closure is large enough.
    */
-  if (*$ != NULL) {
+  if (*$ != NULL && (*$)->N >= N) {
     result = *$;
     *$ = result->C;
   } else {
     result = (closure_t)malloc(MALLOC_SIZE(N));
+    result->N = N;
   }
   /*
    * Return the closure.
-- 
2.43.0


From 6eb5e072c384071f9916d239b9f36864a714bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 42/57] fix: the usage of the transpiler named its first option
 as the program

---
 bin/mnmlc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mnmlc b/bin/mnmlc
index 9f54a16..767f76e 100755
--- a/bin/mnmlc
+++ b/bin/mnmlc
@@ -8,7 +8,7 @@
 
 (def usage ()
   "Print out a usage string for this script."
-  (let ((arg0 . (car (cdr ARGV)))
+  (let ((arg0 . (car ARGV))
         (prgn . (car (rev (split arg0 ^/)))))
     (prinl "Usage: " prgn " -c FILE.l -o FILE.c -m MODULE -s SYM1,SYM2,...")
     (prinl)
-- 
2.43.0


From d6e5fa452e0df734dd196dab9e502d975b649b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 43/57] fix: the transpiler reported success when it could not
 transpile

---
 bin/mnmlc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin/mnmlc b/bin/mnmlc
index 767f76e..7e992ef 100755
--- a/bin/mnmlc
+++ b/bin/mnmlc
@@ -33,8 +33,11 @@
         (= SYM (cc:compile MOD SYM DST))
         (prog
           (prinl "Failed to load: " SRC)
-          (usage))))
+          (usage)
+          NIL)))
     (if (not (has args "-h"))
-      (usage))))
+      (prog
+        (usage)
+        NIL))))
 
 # vim: ft=minimal:ts=2:sts=2:sw=2:et:tw=80
-- 
2.43.0


From 2ebe0b152827885134c367a89d0e0a8127d68f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 44/57] fix: a compiled function crashed when it returned an
 argument that it used for nothing else

---
 share/mnml/cps.l | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index 300100f..4c4df09 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -400,7 +400,10 @@
 		#
 		((_ _)	. (let (((op arg) . body)
 										(atype		. (cps:type:get arg alst)))
-								(cps:type:mark kvar atype alst)))
+								(|> alst
+										(cps:type:mark kvar atype)
+										(cps:type:mark arg atype)
+										)))
 		#
 		# Other.
 		#
-- 
2.43.0


From a4858e7f962f80de479b50f0094776cc14b51957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 45/57] fix: two arguments that are only compared never were
 what they are in a compiled function

---
 share/mnml/cps.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index 4c4df09..b3d835a 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -369,7 +369,8 @@
 	"Fold the type list ALST and check for errors."
 	(foldr
 		(\ ((symb . types) acc0)
-			(cons (cons symb (cps:type:fold1 types)) acc0))
+			(let ((type . (cps:type:fold1 types)))
+				(cons (cons symb (if (= type 'UNDEF) 'ATOM type)) acc0)))
 		alst NIL))
 
 (def cps:type:findl (kvar body alst)
-- 
2.43.0


From daf61868ed2ae0e9ed68192163291a084bfea16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 46/57] fix: a branch of a compiled function released what only
 another branch had kept

---
 lib/core/closure.c | 1 +
 share/mnml/cc.l    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/core/closure.c b/lib/core/closure.c
index 48510e3..1d068d2 100644
--- a/lib/core/closure.c
+++ b/lib/core/closure.c
@@ -24,6 +24,7 @@ lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
    * Return the closure.
    */
   result->C = C;
+  memset(result->V, 0, N * sizeof(value_t));
   return result;
 }
 
diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 74f34f6..764f34f 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -335,7 +335,12 @@
 																			 (and (>= idx cnt) (< idx pos)))))
 					(filter (\ ((arg . _		)) (<> 'ATOM (assoc arg TYPES))))
 					(filter (\ ((arg . _		)) (not (cc:ref:idx ARGS arg))))
-					(iter	 (\ ((arg . _		)) (cc:gen:x ARGS NIL arg))))
+					(iter	 (\ ((arg . _		)) (prog
+																				(prin (o|) "if (")
+																				(cc:value:atm ARGS NIL arg)
+																				(prinl " != NULL)")
+																				(cc:gen:x ARGS NIL arg)
+																				))))
 			(/**/ "Clean-up the closure.")
 			(prinl (o|) "lisp_closure_put(&cache, C);"))))
 
-- 
2.43.0


From 26705364eac6cd56ff96543079d7a81edef31493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 47/57] fix: a compiled function with an argument it does not
 use wrote past its closure

---
 share/mnml/cc.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 764f34f..e57a77c 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -575,7 +575,7 @@
 	(iter (\ (e) (prin "value_t " e ", ")) ARGS)
 	(prinl "closure_t C, callback_t K) {");
 	(/**/ "Allocate a new closure.") 
-	(prinl (o|) "closure_t _C = lisp_closure_get(&cache, C, " (len REFS) ");")
+	(prinl (o|) "closure_t _C = lisp_closure_get(&cache, C, " (+ (len ARGS) (len REFS)) ");")
 	(/**/ "Save the arguments.")
 	(foldl
 		(\ (acc e) (prinl (o|) "_C->V[" acc "] = " e ";") (+ acc 1)) 0 ARGS)
-- 
2.43.0


From 7e4cc06c5a3a3bfcecfc03ee37d678f6bab66643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 48/57] fix: a compiled function compared a number with a
 literal or a computed one wrongly

The comparison with a literal was always false, the one with an element of a
list too, and a computed number was released as if it were a cell.
---
 share/mnml/cc.l | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index e57a77c..adfb07a 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -156,11 +156,21 @@
 		(when (= kvar arg1) (cc:gen:x ARGS kvar arg1))
 		(when (= kvar arg2) (cc:gen:x ARGS kvar arg2))))
 
+(def cc:op:atm:num (ARGS kvar op atm num)
+	"Generate C code for the comparison of ATM, an ATOM, with NUM, a NUMBER."
+	(prin (match op (= . "") (<> . "!")) "(IS_NUMB(")
+	(cc:value:atm ARGS kvar atm)
+	(prin ") && ")
+	(cc:value:atm ARGS kvar atm)
+	(prin "->number == ")
+	(cc:value:num ARGS kvar num)
+	(prin ")"))
+
 (def cc:op:atm:two (ARGS TYPES kvar body)
 	"Generate C code for binary ATOM operations."
 	(let (((op arg1 arg2 cont)	. body)
-				(typ1 . (assoc arg1 TYPES))
-				(typ2 . (assoc arg2 TYPES)))
+				(typ1 . (if (num? arg1) 'NUMBER (assoc arg1 TYPES)))
+				(typ2 . (if (num? arg2) 'NUMBER (assoc arg2 TYPES))))
 		(prin (o|) "value_t R = { .number = ")
 		(match (cons typ1 typ2)
 			((NUMBER . NUMBER)	. (prog
@@ -188,10 +198,12 @@
 																	))
 													(_	. (prin " 0 /* Unsupported operation " op " */ "))
 													))
+			((ATOM . NUMBER)	. (cc:op:atm:num ARGS kvar op arg1 arg2))
+			((NUMBER . ATOM)	. (cc:op:atm:num ARGS kvar op arg2 arg1))
 			(_	. (prin " 0 /* Unsupported types (" typ1 ", " typ2 ") */ ")))
 		(prinl " };")
-		(when (= kvar arg1) (cc:gen:x ARGS kvar arg1))
-		(when (= kvar arg2) (cc:gen:x ARGS kvar arg2))))
+		(when (and (= kvar arg1) (= typ1 'ATOM)) (cc:gen:x ARGS kvar arg1))
+		(when (and (= kvar arg2) (= typ2 'ATOM)) (cc:gen:x ARGS kvar arg2))))
 
 (def cc:op:extcall (ARGS TYPES kvar (_ arg))
 	"Generate C code for immediate KVAR funcall."
-- 
2.43.0


From 9f95cada38034c93263ec0579203a0b986f18f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 49/57] fix: a compiled call with the same argument twice, or
 with a literal, did not compile

---
 share/mnml/cc.l | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index adfb07a..7c606c8 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -216,22 +216,22 @@
 	"Generate C code for external function calls."
 	(let ((nvar			. (last args))
 				(effargs	. (cc:arg:get args))
-				(genquot	. (\ (arg)
+				(genquot	. (\ (idx arg)
 											(prog
-												(prin (o|) "atom_t " arg " = lisp_cons(lisp, lisp_make_quote(lisp), UP(")
+												(prin (o|) "atom_t _A" idx " = lisp_cons(lisp, lisp_make_quote(lisp), UP(")
 												(cc:value:atm ARGS kvar arg)
 												(prinl "));")
 												(when (= kvar arg) (cc:gen:x ARGS kvar arg))
 												)))
-				(gensymb	. (\ (arg)
-											(prinl (o|) "MAKE_SYMBOL_STATIC(s_" arg ", \"" arg "\");")
-											(prinl (o|) "atom_t " arg " = lisp_make_symbol(lisp, s_" arg ");")
+				(gensymb	. (\ (idx arg)
+											(prinl (o|) "MAKE_SYMBOL_STATIC(_N" idx ", \"" arg "\");")
+											(prinl (o|) "atom_t _A" idx " = lisp_make_symbol(lisp, _N" idx ");")
 											))
-				(genargs	. (\ (arg)
-											(let ((type . (assoc arg TYPES)))
+				(genargs	. (\ (idx arg)
+											(let ((type . (if (num? arg) 'NUMBER (assoc arg TYPES))))
 												(match type
 													(NUMBER . (prog
-																			(prin (o|) "atom_t " arg " = lisp_make_number(lisp, ")
+																			(prin (o|) "atom_t _A" idx " = lisp_make_number(lisp, ")
 																			(cc:value:num ARGS kvar arg)
 																			(prinl ");")))
 													#
@@ -240,23 +240,23 @@
 													# immediate values and not symbols.
 													#
 													(ATOM . (if (cc:ref:idx ARGS arg)
-																		(genquot arg)
-																		(gensymb arg)))
+																		(genquot idx arg)
+																		(gensymb idx arg)))
 													#
 													# NOTE If no type was found for the ATOM, assume it's
 													# a function symbol.
 													#
-													(NIL	. (gensymb arg))
-													(_		. (prinl (o|) "atom_t " arg " = lisp_make_nil(lisp); /* Unsupported type " (str type) " */"))
+													(NIL	. (gensymb idx arg))
+													(_		. (prinl (o|) "atom_t _A" idx " = lisp_make_nil(lisp); /* Unsupported type " (str type) " */"))
 													))))
-				(gencall	. (\ (arg)
-											(prinl (o|) "_T = lisp_cons(lisp, " arg ", _S);")
+				(gencall	. (\ (idx)
+											(prinl (o|) "_T = lisp_cons(lisp, _A" idx ", _S);")
 											(prinl (o|) "_S = _T;")))
 				(type			. (assoc nvar TYPES)))
-		(iter genargs effargs)
+		(foldl (\ (idx arg) (prog (genargs idx arg) (+ idx 1))) 0 effargs)
 		(/**/ "Build the expression to evaluate.")
 		(prinl (o|) "atom_t _S = lisp_make_nil(lisp), _T;")
-		(iter gencall (rev effargs))
+		(foldl (\ (idx _) (prog (gencall idx) (- idx 1))) (- (len effargs) 1) effargs)
 		(/**/ "Evaluate the expression.")
 		(prinl (o|) "atom_t _R = lisp_eval(lisp, E, _S);")
 		(/**/ "Convert the atom_t result to value_t.")
-- 
2.43.0


From 31e89a1e869b2449d8d81a42b14a1257b186b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 50/57] fix: the arguments of a native or unknown function were
 passed as symbols in a compiled function

Nothing was inferred for them, so that they were taken for names of functions,
and the result for a number.
---
 share/mnml/cps.l | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index b3d835a..e5410c9 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -209,11 +209,17 @@
 			(cps:type:mark symb 'ATOM
 										 (foldl (\ (acc e)
 															(cps:type:mark e 'ATOM acc)) alst params))
-			(let ((cps	. (>& symb))
-						(args	. (car cps))
-						(typs	. (cps:infer symb cps))
-						(bind . (zip params args)))
-				(foldl (\ (acc (e . a)) (cps:type:mark e (assoc a typs) acc)) alst bind)))))
+			#
+			# NOTE A native function, or one that is not known, says nothing about
+			# the types of its arguments and of its result.
+			#
+			(if (and (lst? (cddr (eval symb))) (not (nil? (cddr (eval symb)))))
+				(let ((cps	. (>& symb))
+							(args	. (car cps))
+							(typs	. (cps:infer symb cps))
+							(bind . (zip params args)))
+					(foldl (\ (acc (e . a)) (cps:type:mark e (<|> (assoc a typs) 'UNDEF) acc)) alst bind))
+				(foldl (\ (acc e) (cps:type:mark e 'UNDEF acc)) alst params)))))
 
 (def cps:type:findr (NAME ARGS CONT kvar body alst)
 	"Compute the types involved in a funcall."
-- 
2.43.0


From 973200eace261a4b8bc4128364507e4fc72603b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 51/57] fix: a compiled function that passes a number to itself
 where it takes any value crashed

---
 share/mnml/cc.l | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 7c606c8..4ac4dde 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -262,14 +262,31 @@
 		(/**/ "Convert the atom_t result to value_t.")
 		(cc:gen:value type T 'R)))
 
+(def cc:op:recarg (ARGS TYPES kvar arg prm)
+	"Generate C code for the argument ARG of a recursive call given PRM."
+	(prin (o|) "value_t " arg " = ")
+	(match (cons (assoc arg TYPES) (if (num? prm) 'NUMBER (assoc prm TYPES)))
+		((ATOM . NUMBER)	. (prog
+													(prin "{ .atom = lisp_make_number(lisp, ")
+													(cc:value:num ARGS kvar prm)
+													(prinl ") };")))
+		((NUMBER . ATOM)	. (prog
+													(prin "{ .number = ")
+													(cc:value:atm ARGS kvar prm)
+													(prinl "->number };")
+													(when (= kvar prm) (cc:gen:x ARGS kvar prm))))
+		((NIL . ATOM)			. (prog
+													(prinl "{ .number = 0 };")
+													(when (= kvar prm) (cc:gen:x ARGS kvar prm))))
+		((ATOM . _)				. (prog
+													(cc:value:get ARGS kvar prm)
+													(when (<> kvar prm) (prinl (o|) "UP(" arg ".atom);"))))
+		(_								. (cc:value:get ARGS kvar prm))))
+
 (def cc:op:reccall (ARGS TYPES kvar body)
 	"Generate C code for recursive calls."
 	(iter2 (\ (arg prm)
-					 (unless (= arg kvar)
-						 (prin (o|) "value_t " arg " = ")
-						 (cc:value:get ARGS kvar prm)
-						 (when (and (<> kvar prm) (= 'ATOM (assoc arg TYPES)))
-							 (prinl (o|) "UP(" arg ".atom);"))))
+					 (unless (= arg kvar) (cc:op:recarg ARGS TYPES kvar arg prm)))
 		ARGS (cdr body)))
 
 #
-- 
2.43.0


From 100ed8e5d0c47353c45b4b00d18af801928fa852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 52/57] fix: a compiled function that returns a number or one
 of its arguments that is only compared crashed

---
 share/mnml/cps.l | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index e5410c9..3726976 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -406,10 +406,11 @@
 		# KVAR.
 		#
 		((_ _)	. (let (((op arg) . body)
-										(atype		. (cps:type:get arg alst)))
+										(atype		. (cps:type:get arg alst))
+										(type			. (if (= atype 'UNDEF) (cps:type:get kvar alst) atype)))
 								(|> alst
-										(cps:type:mark kvar atype)
-										(cps:type:mark arg atype)
+										(cps:type:mark kvar type)
+										(cps:type:mark arg type)
 										)))
 		#
 		# Other.
@@ -430,5 +431,6 @@
 		(|> NIL
 				(cps:type:findr name args kvar kvar body)
 				(cps:type:findl kvar body)
+				(cps:type:findl kvar body)
 				cps:type:fold
 				)))
-- 
2.43.0


From 24fa819503f3f023b87d85a951c58a7464dd742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 53/57] fix: NIL as an argument crashed a compiled function

---
 share/mnml/cc.l  |  8 ++++++++
 share/mnml/cps.l | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 4ac4dde..2f85742 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -205,6 +205,10 @@
 		(when (and (= kvar arg1) (= typ1 'ATOM)) (cc:gen:x ARGS kvar arg1))
 		(when (and (= kvar arg2) (= typ2 'ATOM)) (cc:gen:x ARGS kvar arg2))))
 
+(def cc:op:nil (ARGS TYPES kvar body)
+	"Generate C code for NIL."
+	(prinl (o|) "value_t R = { .atom = lisp_make_nil(lisp) };"))
+
 (def cc:op:extcall (ARGS TYPES kvar (_ arg))
 	"Generate C code for immediate KVAR funcall."
 	(prin (o|) "value_t R = ")
@@ -473,6 +477,10 @@
 			#
 			((if _ _ _) . (make-ite cc:gen:block cc:gen:block))
 			#
+			# NIL.
+			#
+			((nil _) . (make-any 'last cc:op:nil))
+			#
 			# KVAR funcall.
 			#
 			((_ _) . (make-any 'car cc:op:extcall))
diff --git a/share/mnml/cps.l b/share/mnml/cps.l
index 3726976..17ed53e 100644
--- a/share/mnml/cps.l
+++ b/share/mnml/cps.l
@@ -74,6 +74,7 @@
 (def cps:lift (kvar counter body)
 	"Lift BODY arguments into lambdas; use KVAR as external continuation."
 	(cond body
+		(nil? . (cons counter (append '(nil) kvar)))
 		(lst? . (match body
 							#
 							# IF/THEN forms,
@@ -313,6 +314,10 @@
 													(cps:type:next NAME ARGS CONT next 'ATOM)
 													)))
 		#
+		# NIL.
+		#
+		((nil _) . (cps:type:next NAME ARGS CONT (last body) 'ATOM alst))
+		#
 		# IF/THEN, UNLESS, WHEN.
 		#
 		~(foldl
@@ -403,6 +408,12 @@
 												(cps:type:findl kvar els)
 												)))
 		#
+		# NIL.
+		#
+		((nil _) . (let (((_ next)	. body)
+										 ((_ _ fun)	. next))
+								 (if (lst? next) (cps:type:findl kvar fun alst) alst)))
+		#
 		# KVAR.
 		#
 		((_ _)	. (let (((op arg) . body)
-- 
2.43.0


From c515904b9ad73cef0d310126560ef04246c6a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 54/57] fix: trace a caught signal outside its handler

With MNML_DEBUG set, the handler of SIGTERM and SIGQUIT called localtime()
and fprintf(). A signal that arrived while another line was being traced
made the process wait for the time zone lock it held itself, for ever.
---
 bin/mnml.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index e8fb7c2..97a4b7c 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -12,17 +12,16 @@
 
 typedef void (*stage_t)(const lisp_t, const atom_t, const void* const data);
 
-static bool keep_running = true;
+static volatile sig_atomic_t keep_running = true;
+static volatile sig_atomic_t caught_signal = 0;
 
-#ifdef LISP_ENABLE_DEBUG
+/*
+ * The handler may interrupt any call: it only takes note of the signal.
+ */
 static void
 signal_handler(const int sigid)
-#else
-static void
-signal_handler(UNUSED const int sigid)
-#endif
 {
-  TRACE("Caught signal: %d", sigid);
+  caught_signal = sigid;
   keep_running = false;
 }
 
@@ -383,6 +382,9 @@ main(const int argc, char** const argv)
     result = lisp_load_file(lisp, filename);
     POP_IO_CONTEXT(lisp, lisp->ochan);
   }
+  if (caught_signal != 0) {
+    TRACE("Caught signal: %d", (int)caught_signal);
+  }
   /*
    * Compute the return status.
    */
-- 
2.43.0


From 3493c0c413d1401fd04db074a999a23dd6395136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 55/57] fix: MNML_DEBUG=TAIL is not undone by the categories
 after it

The flag was computed from the flag of SLOT rather than from its own: TAIL
worked only as the last category, and SLOT traced TAIL too.
---
 lib/core/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index e28d98f..d54a999 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -36,7 +36,7 @@ lisp_debug_set_flag(const char* const flag)
   MNML_DEBUG_REFC = MNML_DEBUG_REFC || strcmp(flag, "REFC") == 0;
   MNML_DEBUG_SLAB = MNML_DEBUG_SLAB || strcmp(flag, "SLAB") == 0;
   MNML_DEBUG_SLOT = MNML_DEBUG_SLOT || strcmp(flag, "SLOT") == 0;
-  MNML_DEBUG_TAIL = MNML_DEBUG_SLOT || strcmp(flag, "TAIL") == 0;
+  MNML_DEBUG_TAIL = MNML_DEBUG_TAIL || strcmp(flag, "TAIL") == 0;
 }
 
 void
-- 
2.43.0


From e6fc7618427c41822bb89c6fc5d2638dafc88436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 56/57] fix: a traced string of 1024 characters and more wrote
 past its buffer

lisp_make_cstring() writes the terminator after the LEN characters that it
was given room for.
---
 lib/core/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index d54a999..ec9b74c 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -92,7 +92,7 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
        * Check if it's a string.
        */
       if (!IS_NULL(atom) && lisp_is_string(atom)) {
-        char buffer[1024];
+        char buffer[1024 + 1];
         size_t len = lisp_make_cstring(atom, buffer, 1024, 0);
         fprintf(fp, "\"%.*s\"", (int)len, buffer);
         break;
-- 
2.43.0


From b37077293c8c4cdbdee2c299ef2527f933d80f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 57/57] fix: tracing a long list overflowed the stack

The trace of a list recursed over its length with a buffer of a kilobyte in
each frame: a few thousand elements ended a traced program.
---
 lib/core/debug.c | 51 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index ec9b74c..89f643c 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -54,8 +54,7 @@ lisp_debug_parse_flags()
  */
 
 static void
-lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
-                const size_t level)
+lisp_debug_atom(FILE* const fp, const atom_t atom, const size_t level)
 {
   /*
    * Process the current atom.
@@ -105,35 +104,31 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
         break;
       }
       /*
-       * Process the list.
+       * Process the list. Its length is not bounded: do not recurse over it.
        */
-      if (alter) {
-        fprintf(fp, "(");
-      }
-      /*
-       * Print CAR.
-       */
-      if (IS_WEAKREF(atom)) {
-        fprintf(fp, "@");
-      } else {
-        lisp_debug_atom(fp, CAR(atom), true, level - 1);
-      }
-      /*
-       * Print CDR.
-       */
-      if (!IS_NULL(CDR(atom))) {
-        if (IS_PAIR(CDR(atom))) {
-          fprintf(fp, " ");
+      fprintf(fp, "(");
+      for (atom_t cur = atom;; cur = CDR(cur)) {
+        /*
+         * Print CAR.
+         */
+        if (IS_WEAKREF(cur)) {
+          fprintf(fp, "@");
         } else {
-          fprintf(fp, " . ");
+          lisp_debug_atom(fp, CAR(cur), level - 1);
+        }
+        /*
+         * Print CDR.
+         */
+        if (IS_NULL(CDR(cur))) {
+          break;
+        }
+        fprintf(fp, IS_PAIR(CDR(cur)) ? " " : " . ");
+        if (!IS_PAIR(CDR(cur)) || lisp_is_string(CDR(cur))) {
+          lisp_debug_atom(fp, CDR(cur), level);
+          break;
         }
-        lisp_debug_atom(fp, CDR(atom), false, level);
-      }
-      /*
-       */
-      if (alter) {
-        fprintf(fp, ")");
       }
+      fprintf(fp, ")");
       break;
     case T_NUMBER:
 #if defined(__MACH__) || defined(__OpenBSD__)
@@ -161,7 +156,7 @@ void
 lisp_debug(FILE* const fp, const atom_t atom, const size_t level)
 {
   if (MNML_DEBUG) {
-    lisp_debug_atom(fp, atom, true, level);
+    lisp_debug_atom(fp, atom, level);
     fprintf(fp, "\n");
   }
 }
-- 
2.43.0

