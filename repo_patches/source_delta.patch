From 73470db88973ce67430553993344bd90b2ed7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:32 +0000
Subject: [PATCH 01/38] fix: reject more subscripts than arrays have dimensions

---
 Basic/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..b25e0fd 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -904,7 +904,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
     do {
       lex_next(parser->lex);
       numeric_expression(parser);
-      ++*parameters;
+      if (++*parameters > MAX_DIMENSIONS)
+        parse_error_no_token(parser, "too many subscripts: %s", name);
     } while (lex_token(parser->lex) == ',');
     match(parser, ')');
   }
-- 
2.43.0


From 60966ea58862749c43c09e4c6b7ea44d38f092d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 02/38] fix: reject assignment to the name of a built-in
 function

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index b25e0fd..c0984ab 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -912,6 +912,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "variable or array expected, found %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 1ca29c9cd555c17062956aa3d05351f44ffad51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 03/38] fix: reject array dimensions whose size wraps round to
 zero

---
 Basic/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..a14160c 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -14,9 +14,9 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
   for (unsigned i = 0; i < dimensions; i++) {
     if (max[i] < base)
       return false;
-    unsigned size = max[i] - base + 1;
-    if (size > MAX_ELEMENTS / *elements)
+    if (max[i] - base >= MAX_ELEMENTS / *elements)
       return false;
+    unsigned size = max[i] - base + 1;
     *elements *= size;
   }
   return true;
-- 
2.43.0


From 84f25ed3ba085767c4df4f61f6d2cf98c5870739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 04/38] fix: character codes 128 to 255 in ASC and CHR$

---
 Basic/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..b93806f 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1008,7 +1008,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
@@ -1023,7 +1023,7 @@ static void execute(VM* vm) {
       if (x < 0 || x > 255 || x != floor(x))
         run_error(vm, "invalid character code: %g\n", x);
       char buf[2];
-      buf[0] = (char) x;
+      buf[0] = (char)(unsigned char) x;
       buf[1] = '\0';
       push_str(vm, buf);
       break;
-- 
2.43.0


From 4c071b8d4e1cad8f89212b95cb84d7fe5a5533a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:03 +0000
Subject: [PATCH 05/38] fix: symbol numbers wrap round in a program with more
 than 65535 names

---
 Basic/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/symbol.h b/Basic/symbol.h
index 6b95877..4d00f35 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -18,7 +18,7 @@ enum symbol_kind {
 
 const char* symbol_kind(int kind);
 
-typedef unsigned short SYMID;
+typedef unsigned SYMID;
 
 typedef struct symbol {
   char* name;
-- 
2.43.0


From b620eeaf0348dac61fbda8c7fdf94e264049efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 06/38] fix: reject an ill-typed dummy argument instead of
 leaving it on the stack

---
 Basic/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index c0984ab..692f125 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -616,6 +616,7 @@ static void discard_expression(PARSER* parser) {
   switch (t) {
     case TYPE_NUM: emit(parser->bcode, B_POP_NUM); break;
     case TYPE_STR: emit(parser->bcode, B_POP_STR); break;
+    default: parse_error(parser, "an expression was expected"); break;
   }
 }
 
-- 
2.43.0


From 6191801c7615708d4df590ac3efbf5b42b2c6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 07/38] fix: a lexical error in immediate mode ends the session

---
 Basic/lexer.c | 17 +++++++++++++----
 Basic/lexer.h |  2 ++
 Basic/parse.c |  1 +
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..6b93fd6 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -23,6 +23,7 @@ LEX* new_lex(const char* name, bool recognise_keyword_prefixes) {
   lex->num = 0;
   lex->word[0] = '\0';
   lex->recognise_keyword_prefixes = recognise_keyword_prefixes;
+  lex->errjmp = NULL;
   return lex;
 }
 
@@ -73,10 +74,17 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
   va_end(ap);
 }
 
+// End the scan after an error which has been reported.
+static void lex_abandon(LEX* lex) {
+  if (lex->errjmp)
+    longjmp(*lex->errjmp, 1);
+  exit(EXIT_FAILURE);
+}
+
 static void validate(LEX* lex, int c) {
   if (c != EOF && (c < 0 || c >= 127)) {
     lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    lex_abandon(lex);
   }
 }
 
@@ -327,13 +335,14 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        lex_abandon(lex);
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      lex_abandon(lex);
     }
   }
   else {
@@ -341,7 +350,7 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        lex_abandon(lex);
       }
       lex->word[i++] = c;
       c = lex_char(lex);
diff --git a/Basic/lexer.h b/Basic/lexer.h
index 18432be..3610d0d 100644
--- a/Basic/lexer.h
+++ b/Basic/lexer.h
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <stdbool.h>
+#include <setjmp.h>
 #include "source.h"
 
 #define MAX_WORD (128)
@@ -17,6 +18,7 @@ typedef struct {
   int token;
   double num;
   bool recognise_keyword_prefixes;
+  jmp_buf* errjmp; // where to go on an error that ends the scan: exit if null
   char word[MAX_WORD];
 } LEX;
 
diff --git a/Basic/parse.c b/Basic/parse.c
index 692f125..61f80c9 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -35,6 +35,7 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   parser.bcode = new_bcode();
   parser.st = st;
   parser.if_then = 0;
+  parser.lex->errjmp = &parser.errjmp;
   if (setjmp(parser.errjmp) == 0) {
     for (unsigned i = 0; i < source_lines(source); i++)
       parse_line(&parser, i, source_linenum(source, i), source_text(source, i));
-- 
2.43.0


From 0ca015afcea860dc97bbbaf3a4576fa935c4560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 08/38] fix: close the source file after loading it

---
 Basic/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..f4ea5da 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -185,6 +185,7 @@ SOURCE* load_source_file(const char* name) {
       exit(EXIT_FAILURE);
     append(src, num, text);
   }
+  fclose(fp);
   return src;
 }
 
-- 
2.43.0


From 5bb26a278ce6b1ef79d51a0232aff6100b12fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:16 +0000
Subject: [PATCH 09/38] fix: load a file whose last line has no newline

---
 Basic/source.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index f4ea5da..4d43aa1 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -172,10 +172,10 @@ SOURCE* load_source_file(const char* name) {
   while (fgets(buf, sizeof buf, fp)) {
     size_t len = strlen(buf);
     if (len > 0) {
-      if (buf[len-1] != '\n')
+      if (buf[len-1] == '\n')
+        buf[--len] = '\0';
+      else if (!feof(fp))
         source_error(src, "source line is too long");
-      len--;
-      buf[len] = '\0';
     }
     if (len == 0)
       source_error(src, "source line is empty");
-- 
2.43.0


From 1a7393fc2f6bd7df4b39d5e4c586b4e132a7f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:20 +0000
Subject: [PATCH 10/38] fix: a program file that cannot be loaded, or line 0,
 ends the session

---
 Basic/run.c           |  2 +-
 Basic/source.c        | 57 +++++++++++++++++++++++++++++--------------
 Monitor/interactive.c |  4 ++-
 System/lbasic.c       | 10 ++++++++
 4 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index b93806f..44d717d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -247,7 +247,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index 4d43aa1..ddd78ce 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -80,7 +80,6 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,19 +90,24 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0)
+  if (num == 0) {
     source_error(src, "invalid line number: %u\n", num);
+    return false;
+  }
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
-  if (num <= latest)
+  if (num <= latest) {
     source_error(src, "line number is not in increasing order: %u\n", num);
+    return false;
+  }
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
@@ -113,8 +117,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   const char* s = line;
   for (; isdigit(*s); s++)
     *num = *num * 10 + *s - '0';
-  if (s == line)
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -174,19 +180,31 @@ SOURCE* load_source_file(const char* name) {
     if (len > 0) {
       if (buf[len-1] == '\n')
         buf[--len] = '\0';
-      else if (!feof(fp))
-        source_error(src, "source line is too long");
+      else if (!feof(fp)) {
+        source_error(src, "source line is too long\n");
+        goto fail;
+      }
+    }
+    if (len == 0) {
+      source_error(src, "source line is empty\n");
+      goto fail;
     }
-    if (len == 0)
-      source_error(src, "source line is empty");
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
+    if (text == NULL || !append(src, num, text))
+      goto fail;
+  }
+  if (ferror(fp)) {
+    source_error(src, "error reading source file\n");
+    goto fail;
   }
   fclose(fp);
   return src;
+
+fail:
+  fclose(fp);
+  delete_source(src);
+  return NULL;
 }
 
 bool save_source_file(const SOURCE* src, const char* name) {
@@ -214,10 +232,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
-    source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
-    source_error(src, "source line is too long");
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
+    source_error(src, "source line is too long\n");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -235,9 +257,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
 
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (text == NULL || !append(src, num, text))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..a463190 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -142,7 +142,9 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
-  if (*p == '\0' || *p == '\n')
+  if (num == 0)
+    error("Invalid line number: %u", num);
+  else if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
     if (*p == ' ')
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..7e4620a 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -132,6 +132,8 @@ static void process_file(const Options* opt) {
       delete_symbol_table(st);
       delete_source(source);
     }
+    else
+      exit(EXIT_FAILURE);
     return;
   }
 
@@ -151,6 +153,10 @@ static void process_file(const Options* opt) {
       printf("Microseconds elapsed: %lld\n", elapsed_usec(&timer));
 #endif
   }
+  else {
+    delete_vm(vm);
+    exit(EXIT_FAILURE);
+  }
 
   delete_vm(vm);
 }
@@ -162,6 +168,8 @@ static void list_file(const char* file_name) {
       printf("%5u %s\n", source_linenum(source, i), source_text(source, i));
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name);
@@ -188,6 +196,8 @@ static void list_names(const char* file_name, bool crunched) {
     delete_lex(lex);
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name) {
-- 
2.43.0


From b68ec1c0e8453cd98675a34df2738e76a7717aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:39 +0000
Subject: [PATCH 11/38] fix: over-large line numbers wrap round to other lines

---
 Basic/source.c        | 11 +++++++++--
 Monitor/interactive.c |  9 +++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index ddd78ce..b84f10a 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <assert.h>
 #include "source.h"
@@ -115,8 +116,14 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    if (*num > (UINT_MAX - digit) / 10) {
+      source_error(src, "line number is too large\n");
+      return NULL;
+    }
+    *num = *num * 10 + digit;
+  }
   if (s == line) {
     source_error(src, "line has no line number\n");
     return NULL;
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a463190..a19d48d 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <math.h>
 #include <assert.h>
@@ -142,7 +143,7 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
-  if (num == 0)
+  if (num == 0 || num == UINT_MAX)
     error("Invalid line number: %u", num);
   else if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
@@ -442,7 +443,11 @@ static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    if (*num > (UINT_MAX - digit) / 10)
+      *num = UINT_MAX; // too large: do not wrap round to some other number
+    else
+      *num = 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 173acb990420b95eaf1222b656e8bf805c162806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:43 +0000
Subject: [PATCH 12/38] fix: report a SAVE which did not write the program

---
 Basic/run.c    |  4 +++-
 Basic/source.c | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 44d717d..146b904 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -241,8 +241,10 @@ void vm_enter_source_line(VM* vm, unsigned num, const char* text) {
 }
 
 bool vm_save_source(VM* vm, const char* name) {
-  if (vm->stored_program.source == NULL)
+  if (vm->stored_program.source == NULL) {
+    fputs("no program to save\n", stderr);
     return false;
+  }
   return save_source_file(vm->stored_program.source, name);
 }
 
diff --git a/Basic/source.c b/Basic/source.c
index b84f10a..e8485ee 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -217,13 +217,17 @@ fail:
 bool save_source_file(const SOURCE* src, const char* name) {
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
-    fprintf(stderr, "cannot create file: %s", name);
+    fprintf(stderr, "cannot create file: %s\n", name);
     return false;
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
-  return true;
+  bool ok = !ferror(fp);
+  if (fclose(fp) != 0)
+    ok = false;
+  if (!ok)
+    fprintf(stderr, "cannot write file: %s\n", name);
+  return ok;
 }
 
 static unsigned line_length(const char* s) {
-- 
2.43.0


From 3cce7565450e3a939c9d938ed37fb303c70adabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 13/38] fix: a program with a long line could be saved but not
 loaded again

---
 Basic/source.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index e8485ee..7137692 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -174,6 +174,29 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+// Read a line of any length, without its newline. Return false at end of file.
+static bool read_line(FILE* fp, char* *buf, unsigned *size) {
+  unsigned len = 0;
+  for (;;) {
+    if (*size - len < 2) {
+      *size = *size ? 2 * *size : 256;
+      *buf = erealloc(*buf, *size);
+    }
+    if (fgets(*buf + len, *size - len, fp) == NULL)
+      return len > 0;
+    len += strlen(*buf + len);
+    if (len > 0 && (*buf)[len-1] == '\n') {
+      (*buf)[len-1] = '\0';
+      return true;
+    }
+    if (len + 1 < *size) {
+      if (!feof(fp))
+        (*buf)[0] = '\0'; // null character in line: not a line of text
+      return true; // last line has no newline
+    }
+  }
+}
+
 SOURCE* load_source_file(const char* name) {
   FILE* fp = fopen(name, "r");
   if (fp == NULL) {
@@ -181,18 +204,10 @@ SOURCE* load_source_file(const char* name) {
     return NULL;
   }
   SOURCE* src = new_source(name);
-  char buf[256];
-  while (fgets(buf, sizeof buf, fp)) {
-    size_t len = strlen(buf);
-    if (len > 0) {
-      if (buf[len-1] == '\n')
-        buf[--len] = '\0';
-      else if (!feof(fp)) {
-        source_error(src, "source line is too long\n");
-        goto fail;
-      }
-    }
-    if (len == 0) {
+  char* buf = NULL;
+  unsigned size = 0;
+  while (read_line(fp, &buf, &size)) {
+    if (buf[0] == '\0') {
       source_error(src, "source line is empty\n");
       goto fail;
     }
@@ -205,10 +220,12 @@ SOURCE* load_source_file(const char* name) {
     source_error(src, "error reading source file\n");
     goto fail;
   }
+  efree(buf);
   fclose(fp);
   return src;
 
 fail:
+  efree(buf);
   fclose(fp);
   delete_source(src);
   return NULL;
-- 
2.43.0


From 639dad97d24b2c04bce20c29fd84d7a50c8f5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:44 +0000
Subject: [PATCH 14/38] fix: carriage return at end of line became part of the
 last DATA item

---
 Basic/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 6b93fd6..7d01ca4 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -357,7 +357,7 @@ const char* lex_next_data(LEX* lex) {
     }
     pushback(lex, c);
     // trim trailing space otherwise it is inconsistent trimming leading space only
-    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\t'))
+    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\t' || lex->word[i-1] == '\r'))
       i--;
   }
   lex->word[i] = '\0';
-- 
2.43.0


From 30aa65bb92a9bcaf738e81fe00f23d29286230b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:47 +0000
Subject: [PATCH 15/38] fix: crunched ELSE or END after a number was taken for
 an exponent

---
 Basic/lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 7d01ca4..dfcbb42 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -257,7 +257,10 @@ int lex_next(LEX* lex) {
           return lex->token = TOK_ERROR;
       }
     }
-    if (tolower(c) == 'e') {
+    // crunched 100ELSE or 100END: number followed by keyword
+    const bool crunched_keyword = lex->recognise_keyword_prefixes && isalpha(c)
+                                  && keyword_prefix(lex->text + lex->pos - 1) != NULL;
+    if (tolower(c) == 'e' && !crunched_keyword) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
       if ((c = lex_char(lex)) == '-') {
-- 
2.43.0


From ddef0285808d3a3bccfadcd2d4637bbb5076fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 16/38] fix: number literal with exponent sign +, as printed,
 was rejected

---
 Basic/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index dfcbb42..4043c5d 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -263,7 +263,7 @@ int lex_next(LEX* lex) {
     if (tolower(c) == 'e' && !crunched_keyword) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
-      if ((c = lex_char(lex)) == '-') {
+      if ((c = lex_char(lex)) == '-' || c == '+') {
         if (!append(lex, &i, c, NUMBER))
           return lex->token = TOK_ERROR;
         c = lex_char(lex);
-- 
2.43.0


From 8ef163104160ae450a014e856f989e8640abb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:54 +0000
Subject: [PATCH 17/38] fix: INPUT at end of input reused the previous reply

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 146b904..efe1e60 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -916,6 +916,7 @@ static void execute(VM* vm) {
       if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
         if (ferror(stdin))
           run_error(vm, "error reading input\n");
+        run_error(vm, "end of input\n");
       }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
-- 
2.43.0


From c5282396cf066beecee660f4f51ee393826010fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 18/38] fix: the rest of an over-long reply was taken as the
 reply to the next INPUT

---
 Basic/run.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index efe1e60..202752a 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -918,6 +918,13 @@ static void execute(VM* vm) {
           run_error(vm, "error reading input\n");
         run_error(vm, "end of input\n");
       }
+      if (strchr(vm->input, '\n') == NULL && !feof(stdin)) {
+        // do not leave the rest of an over-long line for the next INPUT
+        int c;
+        while ((c = getchar()) != EOF && c != '\n')
+          ;
+        puts("* Extra input was discarded *");
+      }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
-- 
2.43.0


From 422b65d85ed3656ca38c7c95e285564313b7f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 19/38] fix: invalid input to an array element left its
 subscripts on the stack

---
 Basic/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 202752a..4d3025b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -958,6 +958,8 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      for (unsigned k = 0; k < i->u.param.params; k++)
+        pop(vm); // subscripts will be evaluated again
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From c9d2eeb56cd6857d1c73737d49aa9e3f519fd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 20/38] fix: CONT skipped a STOP not reached before the break,
 and read past the end of the code

---
 Basic/run.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 4d3025b..2e48248 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -346,13 +346,13 @@ static void run(VM* vm) {
   }
   untrap_interrupt();
 
-  if (interrupted)
-    puts("Break");
-  else if (vm->stopped) {
+  if (vm->stopped) {
     print_source_line(vm->code_state.code->source, vm->code_state.source_line, stdout);
     putchar('\n');
     puts("Stopped");
   }
+  else if (interrupted)
+    puts("Break");
   else {
     if (vm->strict_for && vm->for_sp != 0)
       report_for_in_progress(vm);
@@ -375,10 +375,6 @@ bool vm_continue(VM* vm) {
   if (vm->stopped_program.code->bcode == NULL)
     return false;
   vm->code_state = vm->stopped_program;
-  // If continuing from STOP, continue from PC after STOP.
-  // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
-    vm->code_state.pc++;
   run(vm);
   return true;
 }
@@ -703,7 +699,7 @@ static void execute(VM* vm) {
       return;
     case B_STOP:
       vm->stopped = true;
-      return;
+      break;
     case B_GOTO:
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
-- 
2.43.0


From 2cab8a0ff1ae7e7e2564a6aff30faae608406889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 21/38] fix: a runtime error left operands and a function call
 in progress

---
 Basic/run.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 2e48248..7fb2c7e 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -332,6 +332,7 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void restore_parameter(VM*);
 static void report_for_in_progress(VM*);
 
 // Run the currently selected code from current PC.
@@ -344,6 +345,16 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else {
+    // run-time error: abandon any expression and function call in progress
+    vm->sp = 0;
+    clear_string_stack(vm);
+    if (vm->fn.code_state.code != NULL) {
+      vm->code_state = vm->fn.code_state;
+      clear_code_state(&vm->fn.code_state);
+      restore_parameter(vm);
+    }
+  }
   untrap_interrupt();
 
   if (vm->stopped) {
@@ -1588,6 +1599,11 @@ static void end_def(VM* vm) {
     run_error(vm, "unexpected END DEF\n");
   vm->code_state = vm->fn.code_state;
   vm->fn.code_state.code = NULL;
+  restore_parameter(vm);
+}
+
+// Give the variable named as function parameter its own value back after the call.
+static void restore_parameter(VM* vm) {
   SYMBOL* param_sym = symbol(vm->st, vm->fn.param_id);
   assert(param_sym != NULL);
   param_sym->defined = vm->fn.param_defined;
-- 
2.43.0


From efffc88e5ffad9ae3e733579b5dc6d336d7535ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 22/38] fix: break in the middle of an expression or function
 call could not be continued

---
 Basic/run.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 7fb2c7e..b464ad9 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -335,6 +335,11 @@ static void execute(VM*);
 static void restore_parameter(VM*);
 static void report_for_in_progress(VM*);
 
+// No expression is partly evaluated and no function call in progress.
+static bool at_rest(const VM* vm) {
+  return vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL;
+}
+
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
@@ -342,7 +347,7 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && at_rest(vm)))
       execute(vm);
   }
   else {
-- 
2.43.0


From 229f07d7ee22968f2c7a31dff5daa66030cdc24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 23/38] fix: strings were leaked by runtime errors in string
 operations

---
 Basic/run.c | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index b464ad9..4edb30d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -433,6 +433,7 @@ static void pop_indexes(VM*, unsigned* indexes, unsigned dimensions, const char*
 // Declare string stack functions
 static void push_str(VM*, const char*);
 static char* pop_str(VM*);
+static void unpop_str(VM*, char*);
 static int compare_strings(VM*);
 
 // Numeric variables and arrays
@@ -700,8 +701,11 @@ static void execute(VM* vm) {
       char* s = pop_str(vm);
       size_t sz = strlen(s) + strlen(t);
       char buf[256];
-      if (sz + 1 > sizeof buf)
+      if (sz + 1 > sizeof buf) {
+        unpop_str(vm, s);
+        unpop_str(vm, t);
         run_error(vm, "concatenated string would be too long: %lu characters\n", (unsigned long)sz);
+      }
       strcpy(buf, s);
       strcat(buf, t);
       push_str(vm, buf);
@@ -1032,8 +1036,9 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, (unsigned char) s[0]);
+      double x = (unsigned char) s[0];
       efree(s);
+      push(vm, x);
       break;
     }
     case B_ABS:
@@ -1076,14 +1081,16 @@ static void execute(VM* vm) {
       push(vm, floor(pop(vm)));
       break;
     case B_LEFT: {
-      char* s = pop_str(vm);
       unsigned u = pop_unsigned(vm);
+      char* s = pop_str(vm);
       size_t sz = strlen(s);
       if (u > sz)
         u = (unsigned long)sz;
       char buf[256];
-      if (u + 1 > sizeof buf)
+      if (u + 1 > sizeof buf) {
+        unpop_str(vm, s);
         run_error(vm, STRING_TOO_LONG);
+      }
       strncpy(buf, s, u);
       buf[u] = '\0';
       push_str(vm, buf);
@@ -1092,8 +1099,9 @@ static void execute(VM* vm) {
     }
     case B_LEN: {
       char* s = pop_str(vm);
-      push(vm, (double) strlen(s));
+      double x = (double) strlen(s);
       efree(s);
+      push(vm, x);
       break;
     }
     case B_LOG: {
@@ -1104,17 +1112,21 @@ static void execute(VM* vm) {
       break;
     }
     case B_MID3: {
-      char* s = pop_str(vm);
       unsigned v = pop_unsigned(vm);
       unsigned u = pop_unsigned(vm);
+      char* s = pop_str(vm);
       size_t sz = strlen(s);
-      if (u < 1 || u > sz)
+      if (u < 1 || u > sz) {
+        unpop_str(vm, s);
         run_error(vm, "string index out of range\n");
+      }
       if (v > sz - u + 1)
         v = (unsigned long)(sz - u + 1);
       char buf[256];
-      if (v + 1 > sizeof buf)
+      if (v + 1 > sizeof buf) {
+        unpop_str(vm, s);
         run_error(vm, STRING_TOO_LONG);
+      }
       strncpy(buf, s + u - 1, v);
       buf[v] = '\0';
       push_str(vm, buf);
@@ -1129,14 +1141,16 @@ static void execute(VM* vm) {
       break;
     }
     case B_RIGHT: {
-      char* s = pop_str(vm);
       unsigned u = pop_unsigned(vm);
+      char* s = pop_str(vm);
       size_t sz = strlen(s);
       if (u > sz)
         u = (unsigned long)sz;
       char buf[256];
-      if (u + 1 > sizeof buf)
+      if (u + 1 > sizeof buf) {
+        unpop_str(vm, s);
         run_error(vm, STRING_TOO_LONG);
+      }
       strncpy(buf, s + sz - u, u);
       buf[u] = '\0';
       push_str(vm, buf);
@@ -1181,8 +1195,10 @@ static void execute(VM* vm) {
       char* s = pop_str(vm);
       double x;
       const char* t = convert(s, &x);
-      if (t == NULL || *t != '\0')
+      if (t == NULL || *t != '\0') {
+        unpop_str(vm, s);
         run_error(vm, "invalid number: %s\n", s);
+      }
       efree(s);
       push(vm, x);
       break;
@@ -1264,6 +1280,13 @@ static char* pop_str(VM* vm) {
   return vm->strstack[vm->ssp];
 }
 
+// Hand a string back to the stack, without copying,
+// so that it is released if a run-time error follows.
+static void unpop_str(VM* vm, char* s) {
+  assert(vm->ssp < MAX_STR_STACK);
+  vm->strstack[vm->ssp++] = s;
+}
+
 static int compare_strings(VM* vm) {
   char* t = pop_str(vm);
   char* s = pop_str(vm);
@@ -1423,6 +1446,8 @@ static void get_string_element(VM* vm, SYMBOL* sym, unsigned ndim) {
 static void set_string_element(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
 
+  unpop_str(vm, val); // until it is certain that there is an element to own it
+
   unsigned indexes[MAX_DIMENSIONS];
   pop_indexes(vm, indexes, ndim, sym->name);
 
@@ -1432,7 +1457,7 @@ static void set_string_element(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
   assert(sym->val.strarr != NULL);
   char* * addr = string_element(vm, sym->val.strarr, sym->name, ndim, indexes);
   efree(*addr);
-  *addr = val;
+  *addr = pop_str(vm);
 }
 
 static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
-- 
2.43.0


From b2430e73212ccd69e86707d7a60b9e82d53d6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:21 +0000
Subject: [PATCH 24/38] fix: DEF in immediate mode for a function used by the
 program was rejected

---
 Basic/parse.c |  1 -
 Basic/run.c   | 10 ++++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 61f80c9..d7a360b 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -45,7 +45,6 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
     parser.bcode = NULL;
   }
   delete_lex(parser.lex);
-  sym_make_unknown_array(st);
   return parser.bcode;
 }
 
diff --git a/Basic/run.c b/Basic/run.c
index 4edb30d..64c587d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -540,7 +540,10 @@ static void execute(VM* vm) {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_NUM);
       // must be a parenthesised kind of symbol; not a builtin,
-      // which has its own opcodes; therefore array or user-defined function
+      // which has its own opcodes; therefore array or user-defined function;
+      // not known until now if it has never been defined: then an array
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY;
       if (sym->kind == SYM_ARRAY)
         get_numeric_element(vm, sym, i->u.param.params);
       else {
@@ -664,7 +667,10 @@ static void execute(VM* vm) {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_STR);
       // must be a parenthesised kind of symbol; not a builtin,
-      // which has its own opcodes; therefore array or user-defined function
+      // which has its own opcodes; therefore array or user-defined function;
+      // not known until now if it has never been defined: then an array
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY;
       if (sym->kind == SYM_ARRAY)
         get_string_element(vm, sym, i->u.param.params);
       else {
-- 
2.43.0


From 4089105f4bdf79195530e70744b7fbc9154b76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 25/38] fix: IF with false value and THEN line-number went on
 in the same line

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index d7a360b..16d7194 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -379,6 +379,8 @@ static bool if_statement(PARSER* parser) {
   if (lex_token(parser->lex) == TOK_NUM) {
     unsigned line = line_number(parser);
     emit_basic_line(parser->bcode, B_GOTRUE, line);
+    if (lex_token(parser->lex) != TOK_ELSE)
+      emit(parser->bcode, B_ELSE); // otherwise go to the next program line
     parser->if_then = 0;
     return false;
   }
-- 
2.43.0


From 88a30fca28c4321695d91ccc535ed6a9ddb31e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 26/38] fix: last command line was ignored if it had no newline

---
 Monitor/interactive.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a19d48d..87056bb 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -113,6 +113,8 @@ static bool line_complete(char* cmd) {
     cmd[len-1] = '\0';
     return true;
   }
+  if (feof(stdin))
+    return true; // last line has no newline
   error("Command line too long");
   int c;
   while ((c = getchar()) != EOF && c != '\n')
-- 
2.43.0


From 22e7a94901b5b573146306e721c6fc8cadc634df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 27/38] fix: RENUM missed references, allowed clashes and left
 the old code compiled

---
 Basic/run.c           |   7 ++-
 Basic/run.h           |   1 +
 Monitor/interactive.c | 126 ++++++++++++++++++++++++++----------------
 3 files changed, 86 insertions(+), 48 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 64c587d..c864ef3 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -253,11 +253,16 @@ bool vm_load_source(VM* vm, const char* name) {
   if (source == NULL)
     return false;
 
+  vm_replace_source(vm, source);
+  return true;
+}
+
+void vm_replace_source(VM* vm, SOURCE* source) {
+  assert(vm != NULL);
   if (vm->stored_program.source)
     delete_source(vm->stored_program.source);
   vm->stored_program.source = source;
   stored_program_changed(vm);
-  return true;
 }
 
 SOURCE* vm_stored_source(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..c2f6dc7 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -18,6 +18,7 @@ void vm_enter_source_line(VM*, unsigned num, const char* text);
 bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
+void vm_replace_source(VM*, SOURCE*); // take ownership of source
 SOURCE* vm_stored_source(vm);
 
 // Compile and run code.
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 87056bb..9f1f394 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -231,8 +231,12 @@ static void command(VM* vm, int cmd, char* line, bool *quit) {
     case CMD_RENUM: {
       unsigned new = 10, old = 1, inc = 10;
       line = get_renum_numbers(line, &new, &old, &inc);
-      if (check_eol(line))
-        renumber(vm, new, old, inc);
+      if (check_eol(line)) {
+        if (new == 0 || inc == 0)
+          error("Invalid line number or increment");
+        else
+          renumber(vm, new, old, inc);
+      }
       break;
     }
     case CMD_RUN:
@@ -332,72 +336,100 @@ static void list(const VM* vm, unsigned start, unsigned end, bool page) {
 }
 
 static bool takes_line_number(int token);
+static bool renumber_lines(const SOURCE*, SOURCE* renumbered, LINE_MAP*, unsigned new_start, unsigned old_start, unsigned inc);
+static bool renumber_references(SOURCE* renumbered, const LINE_MAP*, LEX*);
 
+// Renumber a copy of the program, so that the program is unchanged if it cannot be renumbered.
 static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned inc) {
-  SOURCE* source = vm_stored_source(vm);
+  const SOURCE* source = vm_stored_source(vm);
   if (source == NULL)
     return;
 
+  SOURCE* renumbered = new_source(source_name(source));
+  LINE_MAP* map = new_line_map(source_lines(source));
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
-  // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
-  LINE_MAP* map = new_line_map(source_lines(source));
-  unsigned new_linenum = new_start;
+  if (renumber_lines(source, renumbered, map, new_start, old_start, inc) &&
+      renumber_references(renumbered, map, lex))
+    vm_replace_source(vm, renumbered);
+  else
+    delete_source(renumbered);
+
+  delete_lex(lex);
+  delete_line_map(map);
+}
+
+// Copy source lines with new line numbers,
+// creating mapping of old Basic line number to new Basic line number.
+static bool renumber_lines(const SOURCE* source, SOURCE* renumbered, LINE_MAP* map,
+                           unsigned new_start, unsigned old_start, unsigned inc) {
+  unsigned long long new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
+    unsigned new_basic_line = basic_line;
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
-        error("Cannot renumber line %u to %u after line %u",
+      if (new_linenum <= prev_basic_line || new_linenum > (U16)(-1)) {
+        error("Cannot renumber line %u to %llu after line %u",
               basic_line, new_linenum, prev_basic_line);
-        goto bail;
+        return false;
       }
-      insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
-      prev_basic_line = new_linenum;
+      new_basic_line = (unsigned) new_linenum;
       new_linenum += inc;
     }
-    else {
-      insert_line_mapping(map, basic_line, basic_line);
-      prev_basic_line = basic_line;
-    }
+    insert_line_mapping(map, basic_line, new_basic_line);
+    enter_source_line(renumbered, new_basic_line, source_text(source, line));
+    prev_basic_line = new_basic_line;
   }
+  return true;
+}
 
-  // update line numbers in source text
-  for (unsigned line = 0; line < source_lines(source); line++) {
-    int tok = lex_line(lex, line, source_text(source, line));
-    while (tok != TOK_EOF && tok != '\n') {
-      if (takes_line_number(tok)) {
-        tok = lex_next(lex);
-        if (tok == TOK_NUM) {
-          double x = lex_num(lex);
-          if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
-            unsigned basic_line = (unsigned) x;
-            unsigned new_basic_line;
-            if (lookup_line_mapping(map, basic_line, &new_basic_line)) {
-              char num[16];
-              sprintf(num, "%u", new_basic_line);
-              if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
-                error("internal error: renumbering: replacing line number in source line");
-                goto bail;
-              }
-              tok = lex_refresh(lex, source_text(source, line));
-              if (tok != TOK_NUM) {
-                error("internal error: renumbering: retokenising update source text");
-                goto bail;
-              }
-            }
-          }
-        }
+static int renumber_reference(SOURCE* renumbered, unsigned line, const LINE_MAP*, LEX*);
+
+// Update line numbers in source text, but not in remarks or data.
+static bool renumber_references(SOURCE* renumbered, const LINE_MAP* map, LEX* lex) {
+  jmp_buf errjmp;
+  if (setjmp(errjmp) != 0)
+    return false; // lexical error already reported
+  lex->errjmp = &errjmp;
+
+  for (unsigned line = 0; line < source_lines(renumbered); line++) {
+    int tok = lex_line(lex, source_linenum(renumbered, line), source_text(renumbered, line));
+    while (tok != TOK_EOF && tok != '\n' && tok != TOK_REM) {
+      if (tok == TOK_DATA) {
+        do {
+          lex_next_data(lex);
+        } while ((tok = lex_next(lex)) == ',');
       }
-      tok = lex_next(lex);
+      else if (takes_line_number(tok)) {
+        const bool list = tok == TOK_GOTO || tok == TOK_GOSUB; // might be ON...GOTO
+        do {
+          tok = lex_next(lex);
+          if (tok == TOK_NUM)
+            tok = renumber_reference(renumbered, line, map, lex);
+        } while (list && tok == ',');
+      }
+      else
+        tok = lex_next(lex);
     }
   }
 
-bail:
-  delete_line_map(map);
-  delete_lex(lex);
+  return true;
+}
+
+// Update the line number which is the current token.
+// Return the next token.
+static int renumber_reference(SOURCE* renumbered, unsigned line, const LINE_MAP* map, LEX* lex) {
+  unsigned basic_line, new_basic_line;
+  if (lex_unsigned(lex, &basic_line) && lookup_line_mapping(map, basic_line, &new_basic_line)) {
+    char num[16];
+    sprintf(num, "%u", new_basic_line);
+    if (!source_replace(renumbered, line, lex_token_pos(lex), lex_word(lex), num))
+      fatal("internal error: renumbering: replacing line number in source line\n");
+    if (lex_refresh(lex, source_text(renumbered, line)) != TOK_NUM)
+      fatal("internal error: renumbering: retokenising updated source text\n");
+  }
+  return lex_next(lex);
 }
 
 static bool takes_line_number(int token) {
-- 
2.43.0


From d80dd2c6dda16a92f2f900b4f93e55b00cc8ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:54 +0000
Subject: [PATCH 28/38] hook: LBASIC_MONITOR step hook in the run loop

---
 Basic/run.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index c864ef3..22c30b4 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -338,6 +338,13 @@ static bool immediate_state(VM* vm) {
 
 static void execute(VM*);
 static void restore_parameter(VM*);
+
+// Verification hook, called before each instruction: counts steps, raises interrupts.
+#ifdef LBASIC_MONITOR
+void lb_monitor_step(void);
+#else
+#define lb_monitor_step() ((void) 0)
+#endif
 static void report_for_in_progress(VM*);
 
 // No expression is partly evaluated and no function call in progress.
@@ -352,8 +359,10 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && at_rest(vm)))
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && at_rest(vm))) {
+      lb_monitor_step();
       execute(vm);
+    }
   }
   else {
     // run-time error: abandon any expression and function call in progress
-- 
2.43.0


From 9a5582af9cbe57d8ba7dd078d2b6d7b64c80c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:55 +0000
Subject: [PATCH 29/38] fix: DIM with invalid dimensions destroyed the existing
 array

---
 Basic/run.c | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 22c30b4..f3e1be7 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -539,12 +539,6 @@ static void execute(VM* vm) {
     case B_DIM_NUM: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
-      if (sym->val.numarr) {
-        assert(sym->defined);
-        delete_numeric_array(sym->val.numarr);
-        sym->val.numarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_numeric(vm, sym, i->u.param.params, max);
@@ -666,12 +660,6 @@ static void execute(VM* vm) {
     case B_DIM_STR: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
-      if (sym->val.strarr) {
-        assert(sym->defined);
-        delete_string_array(sym->val.strarr);
-        sym->val.strarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_string(vm, sym, i->u.param.params, max);
@@ -1338,11 +1326,11 @@ static void set_numeric_simple(VM* vm, SYMBOL* sym, double val) {
 static void dimension_numeric(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
 
-  sym->val.numarr = new_numeric_array(vm->array_base, ndim, max);
-  if (sym->val.numarr == NULL) {
-    sym->defined = false;
+  struct numeric_array * p = new_numeric_array(vm->array_base, ndim, max);
+  if (p == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  delete_numeric_array(sym->val.numarr); // replace any array of that name
+  sym->val.numarr = p;
   sym->defined = true;
 }
 
@@ -1425,11 +1413,11 @@ static void set_string_simple(VM* vm, SYMBOL* sym, char* val) {
 static void dimension_string(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
 
-  sym->val.strarr = new_string_array(vm->array_base, ndim, max);
-  if (sym->val.strarr == NULL) {
-    sym->defined = false;
+  struct string_array * p = new_string_array(vm->array_base, ndim, max);
+  if (p == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  delete_string_array(sym->val.strarr); // replace any array of that name
+  sym->val.strarr = p;
   sym->defined = true;
 }
 
-- 
2.43.0


From 1aa8c74ad42eba341816df3fb8d86eb9d746ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:58 +0000
Subject: [PATCH 30/38] fix: NOT NOT accepted an operand which is not a logical
 value

---
 Basic/parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 16d7194..e0003af 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -678,8 +678,9 @@ static int NOT_expression(PARSER* parser) {
   if (not) {
     if (type != TYPE_NUM)
       parse_error_no_token(parser, "NOT requires a numeric value");
-    if (not % 2)
-      emit(parser->bcode, B_NOT);
+    emit(parser->bcode, B_NOT);
+    if (not % 2 == 0)
+      emit(parser->bcode, B_NOT); // even if they cancel out, the operand must be valid
   }
 
   return type;
-- 
2.43.0


From 77f253f7de3ffb24ea01b3815fb6026978047815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 31/38] fix: names in a statement with a syntax error could not
 be used for other things

---
 Basic/parse.c  |  2 ++
 Basic/symbol.c | 25 +++++++++++++++++++++++++
 Basic/symbol.h |  6 ++++++
 3 files changed, 33 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index e0003af..d9bfbb2 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -36,6 +36,7 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   parser.st = st;
   parser.if_then = 0;
   parser.lex->errjmp = &parser.errjmp;
+  sym_checkpoint(st);
   if (setjmp(parser.errjmp) == 0) {
     for (unsigned i = 0; i < source_lines(source); i++)
       parse_line(&parser, i, source_linenum(source, i), source_text(source, i));
@@ -43,6 +44,7 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   else {
     delete_bcode(parser.bcode);
     parser.bcode = NULL;
+    sym_rollback(st);
   }
   delete_lex(parser.lex);
   return parser.bcode;
diff --git a/Basic/symbol.c b/Basic/symbol.c
index d282b96..85d7d45 100644
--- a/Basic/symbol.c
+++ b/Basic/symbol.c
@@ -166,6 +166,31 @@ void sym_make_unknown_array(SYMTAB* st) {
   }
 }
 
+// Remember the names known now, and their kinds.
+void sym_checkpoint(SYMTAB* st) {
+  st->checkpoint = st->used;
+  for (unsigned i = 0; i < st->used; i++)
+    st->psym[i]->prior_kind = st->psym[i]->kind;
+}
+
+// Go back to the names known at the last checkpoint.
+// Newer names have been inserted but not used: they have no values.
+void sym_rollback(SYMTAB* st) {
+  assert(st->checkpoint <= st->used);
+  while (st->used > st->checkpoint) {
+    SYMBOL* sym = st->psym[--st->used];
+    assert(!sym->defined);
+    unsigned h = hashpjw_upper(sym->name) % SYMBOL_HASH_SIZE;
+    assert(st->hash[h] == sym);
+    st->hash[h] = sym->next;
+    efree(sym->name);
+    efree(sym);
+  }
+  st->next_id = st->used;
+  for (unsigned i = 0; i < st->used; i++)
+    st->psym[i]->kind = st->psym[i]->prior_kind;
+}
+
 void print_binst(const BINST* i, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp) {
   assert(fp != NULL);
   fprintf(fp, "%5u %s ", j, bcode_name(i->op));
diff --git a/Basic/symbol.h b/Basic/symbol.h
index 4d00f35..c370aae 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -24,6 +24,7 @@ typedef struct symbol {
   char* name;
   SYMID id;
   char kind;
+  char prior_kind; // at checkpoint
   char type;
   char defined;
   union {
@@ -50,6 +51,7 @@ typedef struct {
   unsigned allocated;
   unsigned used;
   SYMID next_id;
+  unsigned checkpoint;
 } SYMTAB;
 
 SYMTAB* new_symbol_table(void);
@@ -67,5 +69,9 @@ const char* sym_name(const SYMTAB*, SYMID);
 // Turn parenthesised symbols of UNKNOWN kind into ARRAY.
 void sym_make_unknown_array(SYMTAB*);
 
+// Forget the names introduced by code which turns out to be invalid.
+void sym_checkpoint(SYMTAB*);
+void sym_rollback(SYMTAB*);
+
 // in symbol.h because symbol.h depends on bcode.h
 void print_binst(const BINST*, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp);
-- 
2.43.0


From 8dd45b3afc0f5c39cdd634143f3a1419c8208ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 32/38] fix: CLEAR forgot the variable of a FOR loop continued
 after CLEAR

---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index f3e1be7..c6b19e3 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1579,7 +1579,7 @@ static void next(VM* vm, int si) {
       vm->for_stack[k] = vm->for_stack[k + 1];
   }
   else {
-    sym->val.num = x;
+    set_numeric_simple(vm, sym, x);
     vm->code_state = f->code_state;
   }
   if (vm->trace_for)
-- 
2.43.0


From f836462f1d5c5fd20d622853cfcf49bfdc186f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 33/38] fix: FOR loops nested too deeply printed debugging
 output without --trace-for

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index c6b19e3..acec62f 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -765,7 +765,8 @@ static void execute(VM* vm) {
       }
       else {
         if (vm->for_sp >= MAX_FOR) {
-          dump_for_stack(vm, "overflow");
+          if (vm->trace_for)
+            dump_for_stack(vm, "overflow");
           run_error(vm, "FOR is nested too deeply\n");
         }
         si = vm->for_sp++;
-- 
2.43.0


From 33560c63e29d964e0ca87a1fcacd0941986bf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 34/38] fix: a break during a failing statement let CONT go on
 after the runtime error

---
 Basic/run.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index acec62f..3491508 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -365,7 +365,9 @@ static void run(VM* vm) {
     }
   }
   else {
-    // run-time error: abandon any expression and function call in progress
+    // run-time error: abandon any expression and function call in progress,
+    // and ignore an interrupt that came during the failed statement
+    interrupted = false;
     vm->sp = 0;
     clear_string_stack(vm);
     if (vm->fn.code_state.code != NULL) {
-- 
2.43.0


From fd0e4f0c443f874421b775724a4938b86af1e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:54 +0000
Subject: [PATCH 35/38] fix: deeply nested expressions overflowed the stack

---
 Basic/parse.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index d9bfbb2..0274932 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -17,11 +17,15 @@
 #include "builtin.h"
 #include "os.h"
 
+// limit of nested subexpressions, so as not to run out of stack
+#define MAX_NESTING (1000)
+
 typedef struct {
   LEX* lex;
   BCODE* bcode;
   SYMTAB* st;
   unsigned if_then;
+  unsigned nesting;
   jmp_buf errjmp;
 } PARSER;
 
@@ -35,6 +39,7 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   parser.bcode = new_bcode();
   parser.st = st;
   parser.if_then = 0;
+  parser.nesting = 0;
   parser.lex->errjmp = &parser.errjmp;
   sym_checkpoint(st);
   if (setjmp(parser.errjmp) == 0) {
@@ -806,17 +811,24 @@ static int neg_expr(PARSER* parser) {
 
 static int primary_expression(PARSER*);
 
+// All recursion in expressions passes through here.
 static int power_expr(PARSER* parser) {
+  if (parser->nesting >= MAX_NESTING)
+    parse_error_no_token(parser, "expression is nested too deeply");
+  parser->nesting++;
+
   int type1 = primary_expression(parser);
 
   if (type1 == TYPE_NUM && lex_token(parser->lex) == '^') {
     lex_next(parser->lex);
     int type2 = power_expr(parser);
-    if (type2 != TYPE_NUM)
-      return TYPE_ERR;
-    emit(parser->bcode, B_POW);
+    if (type2 == TYPE_NUM)
+      emit(parser->bcode, B_POW);
+    else
+      type1 = TYPE_ERR;
   }
 
+  parser->nesting--;
   return type1;
 }
 
-- 
2.43.0


From 8c444c02b105d6625548afe05ba3c86c063a14f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:15 +0000
Subject: [PATCH 36/38] fix: --list-names overflowed the stack when there were
 many names in order

---
 Shared/stringuniq.c | 65 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/Shared/stringuniq.c b/Shared/stringuniq.c
index db8bcb4..e7b700a 100644
--- a/Shared/stringuniq.c
+++ b/Shared/stringuniq.c
@@ -20,33 +20,60 @@ static struct node * new_node(const char* s) {
   return n;
 }
 
+// The tree is as deep as it has nodes if strings are inserted in order,
+// so its functions are not recursive.
+
 static void delete_tree(struct node * n) {
-  if (n) {
-    delete_tree(n->left);
-    delete_tree(n->right);
-    efree(n->s);
-    efree(n);
+  while (n) {
+    struct node * left = n->left;
+    if (left) {
+      // rotate right, until there is no left subtree
+      n->left = left->right;
+      left->right = n;
+      n = left;
+    }
+    else {
+      struct node * right = n->right;
+      efree(n->s);
+      efree(n);
+      n = right;
+    }
   }
 }
 
-static struct node * insert_node(struct node * n, const char* s) {
-  if (n == NULL)
-    return new_node(s);
-  assert(n->s != NULL);
-  int cmp = STRICMP(s, n->s);
-  if (cmp < 0)
-    n->left = insert_node(n->left, s);
-  else if (cmp > 0)
-    n->right = insert_node(n->right, s);
-  return n;
+static struct node * insert_node(struct node * root, const char* s) {
+  struct node * * p = &root;
+  while (*p) {
+    assert((*p)->s != NULL);
+    int cmp = STRICMP(s, (*p)->s);
+    if (cmp == 0)
+      return root;
+    p = cmp < 0 ? &(*p)->left : &(*p)->right;
+  }
+  *p = new_node(s);
+  return root;
 }
 
 static void traverse_tree(const struct node * n, void (*callback)(const char*)) {
-  if (n) {
-    traverse_tree(n->left, callback);
-    callback(n->s);
-    traverse_tree(n->right, callback);
+  const struct node * * stack = NULL; // nodes whose left subtree is being traversed
+  unsigned allocated = 0;
+  unsigned used = 0;
+  while (n || used) {
+    if (n) {
+      if (used == allocated) {
+        allocated = allocated ? 2 * allocated : 64;
+        stack = erealloc(stack, allocated * sizeof stack[0]);
+      }
+      stack[used++] = n;
+      n = n->left;
+    }
+    else {
+      n = stack[--used];
+      callback(n->s);
+      n = n->right;
+    }
   }
+  efree(stack);
 }
 
 struct unique_strings {
-- 
2.43.0


From a1041bf92b7de9cf93ff29d71061d0e7ef4dbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 37/38] fix: the prompt of INPUT leaked when an invalid
 character followed it

---
 Basic/parse.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 0274932..9aaf695 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -436,15 +436,14 @@ static void input_statement(PARSER* parser) {
 
 /* Parse optional input prompt. Emit code to read input buffer. */
 static void input_buffer(PARSER* parser) {
-  char* prompt = NULL;
   if (lex_token(parser->lex) == TOK_STR) {
-    prompt = estrdup(lex_word(parser->lex));
+    emit_str(parser->bcode, B_INPUT_BUF, lex_word(parser->lex));
     int sep = lex_next(parser->lex);
     if (sep == ';' || sep == ',')
       lex_next(parser->lex);
   }
-
-  emit_str_ptr(parser->bcode, B_INPUT_BUF, prompt);
+  else
+    emit_str_ptr(parser->bcode, B_INPUT_BUF, NULL);
 }
 
 static void input_item(PARSER* parser) {
-- 
2.43.0


From 5865f8207c628bc9f6bc168b902ad64e949c9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:18 +0000
Subject: [PATCH 38/38] fix: INPUT at the prompt spoiled an INPUT statement
 interrupted by break, CONT then looped for ever

---
 Basic/run.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 3491508..64d550c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -97,6 +97,12 @@ struct vm {
   char input[128];
   int inp;
   unsigned input_pc;
+  // INPUT of stopped program: may have been interrupted by break
+  struct {
+    char input[128];
+    int inp;
+    unsigned input_pc;
+  } stopped_input;
   // behaviour options
   bool keywords_anywhere;
   bool trace_basic;
@@ -394,8 +400,12 @@ static void run(VM* vm) {
   // On normal program end, clear program stopped state.
   // After running immediate code, leave program stopped state alone.
   if (vm->code_state.code == &vm->stored_program) {
-    if (vm->stopped || interrupted)
+    if (vm->stopped || interrupted) {
       vm->stopped_program = vm->code_state;
+      memcpy(vm->stopped_input.input, vm->input, sizeof vm->input);
+      vm->stopped_input.inp = vm->inp;
+      vm->stopped_input.input_pc = vm->input_pc;
+    }
     else
       clear_code_state(&vm->stopped_program);
   }
@@ -407,6 +417,9 @@ bool vm_continue(VM* vm) {
   if (vm->stopped_program.code->bcode == NULL)
     return false;
   vm->code_state = vm->stopped_program;
+  memcpy(vm->input, vm->stopped_input.input, sizeof vm->input);
+  vm->inp = vm->stopped_input.inp;
+  vm->input_pc = vm->stopped_input.input_pc;
   run(vm);
   return true;
 }
-- 
2.43.0

