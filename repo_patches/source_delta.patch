From 2d26a79cc5110582e9abc11ed9eae1685dc7a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 01/36] fix: v6 lexer reports an unknown character as a syntax
 error

Returning -1 made bison see the end of the input, so everything after the
unknown character was silently dropped (a = 1 $ junk parsed as a = 1).
---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..2c7bd81 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -191,7 +191,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; /* invalid token, -1 would mean end of input */
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..92123fd 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1180,7 +1180,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; /* invalid token, -1 would mean end of input */
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From b04f9890c4a6652abcb334f14b03d8741ba5c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 02/36] fix: v6 ParseTSL rejects a NUL byte

The C parser only saw the input up to the first NUL byte, so the rest of
the expression was silently ignored.
---
 v6/pkg/tsl/tsl.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..28fd9ec 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"time"
 	"unsafe"
 )
@@ -45,6 +46,17 @@ type TSLArrayLiteral struct {
 
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	// A C string ends at the first NUL byte, reject it instead of ignoring
+	// everything that follows.
+	if pos := strings.IndexByte(input, 0); pos >= 0 {
+		return nil, &SyntaxError{
+			Message:  "syntax error",
+			Position: pos,
+			Context:  "\x00",
+			Input:    input,
+		}
+	}
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From e39cf60263def3e4e17791bbd6bab2cc434f7095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 03/36] fix: v6 ParseTSL is safe for concurrent use

The flex/bison parser keeps its state (buffer, AST root, error) in global
variables, concurrent calls corrupted each other.
---
 v6/pkg/tsl/tsl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 28fd9ec..03126e7 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -24,10 +24,15 @@ package tsl
 import "C"
 import (
 	"strings"
+	"sync"
 	"time"
 	"unsafe"
 )
 
+// parserMutex serializes the calls to the C parser, it keeps its state in
+// global variables.
+var parserMutex sync.Mutex
+
 // TSLNode represents an tree search language AST (Abstract Syntax Tree) node
 type TSLNode struct {
 	cNode *C.ast_node
@@ -60,6 +65,9 @@ func ParseTSL(input string) (*TSLNode, error) {
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	cNode := C.parse_input_string(cInput)
 	if cNode == nil {
 		errStr := C.GoString(C.get_error_string())
-- 
2.43.0


From b69dbed279e2678a806a0fc3ba39bf0b862a9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 04/36] fix: v6 syntax error position is an offset into the
 input

The position of an error in an empty input was -1, and the column was reset
after a newline, so SyntaxError.Error() panicked or pointed to the wrong
place in multi line inputs.
---
 v6/pkg/parser/tsl_lexer.l   |  2 +-
 v6/pkg/parser/tsl_parser.y  |  3 ++-
 v6/pkg/tsl/errors.go        | 11 +++++------
 v6/pkg/tsl/lex.yy.c         |  2 +-
 v6/pkg/tsl/tsl_parser.tab.c |  3 ++-
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 2c7bd81..7435220 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -184,7 +184,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 "]"                        { return RBRACKET; }
 
     /* Whitespace handling */
-\r?\n                     { yycolumn = 1; /* Reset column on newline */ }
+\r?\n                     { /* Keep counting, error positions are input offsets */ }
 [ \t\r\n\f\v]+            { /* Track column for whitespace */ }
 
     /* Error handling */
diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..42dc636 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -254,7 +254,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    // Subtract 2 to account for token start, an empty input has no token
+    set_error_position(yycolumn > 1 ? yycolumn - 2 : 0);
     if (error_string) {
         free(error_string);
     }
diff --git a/v6/pkg/tsl/errors.go b/v6/pkg/tsl/errors.go
index ba34543..8b852c0 100644
--- a/v6/pkg/tsl/errors.go
+++ b/v6/pkg/tsl/errors.go
@@ -1,6 +1,9 @@
 package tsl
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // SyntaxError represents a TSL parsing error with context
 type SyntaxError struct {
@@ -12,11 +15,7 @@ type SyntaxError struct {
 
 // Error implements the error interface
 func (e *SyntaxError) Error() string {
-	pointer := make([]rune, e.Position)
-	for i := range pointer {
-		pointer[i] = ' '
-	}
-	pointerLine := string(pointer) + "^"
+	pointerLine := strings.Repeat(" ", max(e.Position, 0)) + "^"
 
 	return fmt.Sprintf("%s at position %d:\n%s\n%s",
 		e.Message, e.Position, e.Input, pointerLine)
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 92123fd..30e3c21 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1165,7 +1165,7 @@ case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
 #line 188 "tsl_lexer.l"
-{ yycolumn = 1; /* Reset column on newline */ }
+{ /* Keep counting, error positions are input offsets */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..05f3777 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1779,7 +1779,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    // Subtract 2 to account for token start, an empty input has no token
+    set_error_position(yycolumn > 1 ? yycolumn - 2 : 0);
     if (error_string) {
         free(error_string);
     }
-- 
2.43.0


From 1f6bfe548dbe6999f94784e1ba2e08fe76367a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 05/36] fix: v6 parser does not leak memory

Tokens and sub trees discarded by a syntax error were never freed, and
building an array literal leaked every appended element and cloned the whole
array for each of them (quadratic work and memory).
---
 v6/pkg/parser/tsl_parser.y  |  18 +-
 v6/pkg/tsl/tsl_ast.c        |   8 +
 v6/pkg/tsl/tsl_ast.h        |   1 +
 v6/pkg/tsl/tsl_parser.tab.c | 328 +++++++++++++++++++++++-------------
 4 files changed, 229 insertions(+), 126 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 42dc636..b4eb843 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -60,16 +60,20 @@ char *error_string = NULL;
 %right UMINUS                      /* unary minus */
 
 /* Nonterminal types */
-%type <node> input expr or_expr and_expr comparison_expr
+%type <node> expr or_expr and_expr comparison_expr
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
+/* Free the values of symbols discarded by an error */
+%destructor { ast_free($$); } <node>
+%destructor { free($$); } <str>
+
 %start input
 
 %%
 
 input:
-    expr { $$ = $1; ast_root = $1; }
+    expr { ast_root = $1; }
     ;
 
 expr:
@@ -183,15 +187,7 @@ array_elements:
                                       free(elements);
                                     }
     | array_elements COMMA expr     {
-                                      ast_node **elements = malloc(($1->data.array.size + 1) * sizeof(ast_node*));
-                                      // Copy existing elements
-                                      for(int i = 0; i < $1->data.array.size; i++) {
-                                          elements[i] = ast_clone($1->data.array.elements[i]);
-                                      }
-                                      elements[$1->data.array.size] = ast_clone($3);
-                                      $$ = ast_create_array($1->data.array.size + 1, elements);
-                                      free(elements);
-                                      ast_free($1);
+                                      $$ = ast_array_append($1, $3);
                                     }
     ;
 
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..137581b 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -109,6 +109,14 @@ ast_node *ast_create_array(int size, ast_node **elements) {
     return node;
 }
 
+ast_node *ast_array_append(ast_node *node, ast_node *element) {
+    int size = node->data.array.size;
+    node->data.array.elements = realloc(node->data.array.elements, (size + 1) * sizeof(ast_node*));
+    node->data.array.elements[size] = element;
+    node->data.array.size = size + 1;
+    return node;
+}
+
 void ast_free(ast_node *node) {
     if (!node) return;
     
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..8aa8872 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -53,6 +53,7 @@ ast_node *ast_create_unary(int op, ast_node *child);
 ast_node *ast_create_date(const char *value);
 ast_node *ast_create_rfc3339(const char *value);
 ast_node *ast_create_array(int size, ast_node **elements);
+ast_node *ast_array_append(ast_node *node, ast_node *element);
 ast_node *ast_clone(const ast_node *node);
 
 /* AST node manipulation functions */
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 05f3777..8011f0c 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -574,12 +574,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+       0,    76,    76,    80,    84,    85,    89,    90,    94,    95,
+      96,    97,    98,    99,   100,   101,   102,   103,   104,   105,
+     109,   113,   114,   118,   126,   135,   136,   143,   144,   145,
+     149,   150,   151,   152,   156,   157,   158,   159,   160,   161,
+     165,   166,   167,   168,   169,   173,   177,   178,   179,   183,
+     189,   195,   196,   197,   198,   199,   200,   201
 };
 #endif
 
@@ -943,7 +943,113 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1206,118 +1312,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
-         { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 76 "tsl_parser.y"
+         { ast_root = (yyvsp[0].node); }
+#line 1318 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 85 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
-#line 86 "tsl_parser.y"
+#line 90 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
-#line 91 "tsl_parser.y"
+#line 95 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
-#line 92 "tsl_parser.y"
+#line 96 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
-#line 93 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
-#line 94 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
-#line 95 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
-#line 96 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
-#line 97 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
-#line 98 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+#line 105 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1399 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 109 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1408 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+#line 113 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+#line 114 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1423 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+#line 118 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1432,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1436 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+#line 126 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,203 +1446,195 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1450 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+#line 135 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+#line 136 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1465 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+#line 144 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+#line 145 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+#line 150 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+#line 151 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+#line 157 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+#line 158 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+#line 166 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+#line 167 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+#line 173 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+#line 177 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+#line 178 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+#line 183 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1584 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+#line 189 "tsl_parser.y"
                                     {
-                                      ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
-                                      // Copy existing elements
-                                      for(int i = 0; i < (yyvsp[-2].node)->data.array.size; i++) {
-                                          elements[i] = ast_clone((yyvsp[-2].node)->data.array.elements[i]);
-                                      }
-                                      elements[(yyvsp[-2].node)->data.array.size] = ast_clone((yyvsp[0].node));
-                                      (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
-                                      free(elements);
-                                      ast_free((yyvsp[-2].node));
+                                      (yyval.node) = ast_array_append((yyvsp[-2].node), (yyvsp[0].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1592 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+#line 195 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1598 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+#line 196 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1604 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+#line 197 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1610 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+#line 198 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1616 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+#line 199 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1622 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+#line 200 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1628 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+#line 201 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1634 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1638 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1827,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 204 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From 0f26478af877ff575b6a6b7bd21d6f2b78fb5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 06/36] fix: v6 freeing or cloning a long expression does not
 overflow the stack

ast_free and ast_clone recursed once for each operator of a chain like
a + 1 + 1 + ..., a long enough filter crashed the process.
---
 v6/pkg/tsl/tsl_ast.c | 53 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 137581b..946ca67 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -117,9 +117,13 @@ ast_node *ast_array_append(ast_node *node, ast_node *element) {
     return node;
 }
 
-void ast_free(ast_node *node) {
-    if (!node) return;
-    
+void ast_free(ast_node *node);
+
+/* Free a node and all its children but the left (or only) one, which is
+   returned. */
+static ast_node *ast_free_step(ast_node *node) {
+    ast_node *next = NULL;
+
     switch (node->type) {
         case AST_STRING:
         case AST_IDENTIFIER:
@@ -128,11 +132,11 @@ void ast_free(ast_node *node) {
             free(node->data.string);
             break;
         case AST_BINARY_OP:
-            ast_free(node->data.binary.left);
+            next = node->data.binary.left;
             ast_free(node->data.binary.right);
             break;
         case AST_UNARY_OP:
-            ast_free(node->data.unary.child);
+            next = node->data.unary.child;
             break;
         case AST_ARRAY:
             for (int i = 0; i < node->data.array.size; i++) {
@@ -145,11 +149,19 @@ void ast_free(ast_node *node) {
     }
     
     free(node);
+    return next;
 }
 
-ast_node *ast_clone(const ast_node *node) {
-    if (!node) return NULL;
-    
+/* A chain of left associative operators makes a tree as deep as the input is
+   long, walk it with a loop so it can not overflow the stack. */
+void ast_free(ast_node *node) {
+    while (node) {
+        node = ast_free_step(node);
+    }
+}
+
+/* Clone a node and all its children but the left (or only) one */
+static ast_node *ast_clone_step(const ast_node *node) {
     ast_node *clone = malloc(sizeof(ast_node));
     clone->type = node->type;
     
@@ -168,12 +180,12 @@ ast_node *ast_clone(const ast_node *node) {
             break;
         case AST_BINARY_OP:
             clone->data.binary.op = node->data.binary.op;
-            clone->data.binary.left = ast_clone(node->data.binary.left);
+            clone->data.binary.left = NULL;
             clone->data.binary.right = ast_clone(node->data.binary.right);
             break;
         case AST_UNARY_OP:
             clone->data.unary.op = node->data.unary.op;
-            clone->data.unary.child = ast_clone(node->data.unary.child);
+            clone->data.unary.child = NULL;
             break;
         case AST_ARRAY:
             clone->data.array.size = node->data.array.size;
@@ -189,6 +201,27 @@ ast_node *ast_clone(const ast_node *node) {
     return clone;
 }
 
+ast_node *ast_clone(const ast_node *node) {
+    ast_node *root = NULL;
+    ast_node **slot = &root;
+
+    while (node) {
+        ast_node *clone = ast_clone_step(node);
+        *slot = clone;
+
+        if (node->type == AST_BINARY_OP) {
+            slot = &clone->data.binary.left;
+            node = node->data.binary.left;
+        } else if (node->type == AST_UNARY_OP) {
+            slot = &clone->data.unary.child;
+            node = node->data.unary.child;
+        } else {
+            node = NULL;
+        }
+    }
+    return root;
+}
+
 double get_number_value(const ast_node *node) {
     return node->data.number;
 }
-- 
2.43.0


From 86a880cb53d10dd3b6a5a0837ba57537e19a83ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 07/36] fix: v6 quoted strings are dates only when they look
 like dates

Any string with a T and a Z or a + (for example 'Tom Z'), or with dashes at
the right places, was turned into a timestamp or date literal.
---
 v6/pkg/parser/tsl_lexer.l |  28 +++++++-
 v6/pkg/tsl/lex.yy.c       | 136 ++++++++++++++++++++++----------------
 2 files changed, 106 insertions(+), 58 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 7435220..2785c2e 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include "tsl_ast.h"
 #include "tsl_lexer.h"
 #include "tsl_parser.tab.h"
@@ -16,12 +17,35 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Match the start of a string with a format, '0' in the format is any digit.
+   Returns the rest of the string, or NULL if it does not match. */
+static char *match_format(char *s, const char *format) {
+    for (; *format; s++, format++) {
+        if (*format == '0' ? !isdigit((unsigned char)*s) : *s != *format) return NULL;
+    }
+    return s;
+}
+
+/* Check if string is an RFC3339 timestamp */
+static int is_rfc3339(char *s) {
+    char *offset;
+
+    if (!(s = match_format(s, "0000-00-00T00:00:00"))) return 0;
+    if (s[0] == '.' && isdigit((unsigned char)s[1])) {
+        for (s++; isdigit((unsigned char)*s); s++);
+    }
+    if (strcmp(s, "Z") == 0) return 1;
+    offset = match_format(s, "+00:00");
+    if (!offset) offset = match_format(s, "-00:00");
+    return offset && *offset == '\0';
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    if (strlen(s) == 10 && match_format(s, "0000-00-00")) {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    } else if (is_rfc3339(s)) {
         yylval.str = s;
         return RFC3339;
     }
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 30e3c21..f49c7f6 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -572,6 +572,7 @@ char *yytext;
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include "tsl_ast.h"
 #include "tsl_lexer.h"
 #include "tsl_parser.tab.h"
@@ -585,12 +586,35 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Match the start of a string with a format, '0' in the format is any digit.
+   Returns the rest of the string, or NULL if it does not match. */
+static char *match_format(char *s, const char *format) {
+    for (; *format; s++, format++) {
+        if (*format == '0' ? !isdigit((unsigned char)*s) : *s != *format) return NULL;
+    }
+    return s;
+}
+
+/* Check if string is an RFC3339 timestamp */
+static int is_rfc3339(char *s) {
+    char *offset;
+
+    if (!(s = match_format(s, "0000-00-00T00:00:00"))) return 0;
+    if (s[0] == '.' && isdigit((unsigned char)s[1])) {
+        for (s++; isdigit((unsigned char)*s); s++);
+    }
+    if (strcmp(s, "Z") == 0) return 1;
+    offset = match_format(s, "+00:00");
+    if (!offset) offset = match_format(s, "-00:00");
+    return offset && *offset == '\0';
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    if (strlen(s) == 10 && match_format(s, "0000-00-00")) {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    } else if (is_rfc3339(s)) {
         yylval.str = s;
         return RFC3339;
     }
@@ -636,13 +660,13 @@ char* strip_quotes(char* text, int offset) {
     free(raw);
     return processed;
 }
-#line 639 "../tsl/lex.yy.c"
+#line 663 "../tsl/lex.yy.c"
 /* Basic building blocks */
 /* Date and time components */
 /* Identifier patterns */
 /* Numeric patterns */
 #define YY_NO_INPUT 1
-#line 645 "../tsl/lex.yy.c"
+#line 669 "../tsl/lex.yy.c"
 
 #define INITIAL 0
 
@@ -857,12 +881,12 @@ YY_DECL
 		}
 
 	{
-#line 108 "tsl_lexer.l"
+#line 132 "tsl_lexer.l"
 
 
-#line 111 "tsl_lexer.l"
+#line 135 "tsl_lexer.l"
     /* Keywords (case-insensitive) */
-#line 865 "../tsl/lex.yy.c"
+#line 889 "../tsl/lex.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -921,157 +945,157 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 112 "tsl_lexer.l"
+#line 136 "tsl_lexer.l"
 { return K_LIKE; }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 113 "tsl_lexer.l"
+#line 137 "tsl_lexer.l"
 { return K_ILIKE; }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 114 "tsl_lexer.l"
+#line 138 "tsl_lexer.l"
 { return K_AND; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 115 "tsl_lexer.l"
+#line 139 "tsl_lexer.l"
 { return K_OR; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "tsl_lexer.l"
+#line 140 "tsl_lexer.l"
 { return K_BETWEEN; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "tsl_lexer.l"
+#line 141 "tsl_lexer.l"
 { return K_IN; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "tsl_lexer.l"
+#line 142 "tsl_lexer.l"
 { return K_IS; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "tsl_lexer.l"
+#line 143 "tsl_lexer.l"
 { return K_NULL; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "tsl_lexer.l"
+#line 144 "tsl_lexer.l"
 { return K_NOT; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "tsl_lexer.l"
+#line 145 "tsl_lexer.l"
 { return K_TRUE; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "tsl_lexer.l"
+#line 146 "tsl_lexer.l"
 { return K_FALSE; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "tsl_lexer.l"
+#line 147 "tsl_lexer.l"
 { return K_LEN; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "tsl_lexer.l"
+#line 148 "tsl_lexer.l"
 { return K_ANY; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 125 "tsl_lexer.l"
+#line 149 "tsl_lexer.l"
 { return K_ALL; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 126 "tsl_lexer.l"
+#line 150 "tsl_lexer.l"
 { return K_SUM; }
 	YY_BREAK
 /* Comparison operators */
 case 16:
 YY_RULE_SETUP
-#line 129 "tsl_lexer.l"
+#line 153 "tsl_lexer.l"
 { return LE; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 130 "tsl_lexer.l"
+#line 154 "tsl_lexer.l"
 { return LT; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 131 "tsl_lexer.l"
+#line 155 "tsl_lexer.l"
 { return GE; }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 132 "tsl_lexer.l"
+#line 156 "tsl_lexer.l"
 { return GT; }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 133 "tsl_lexer.l"
+#line 157 "tsl_lexer.l"
 { return NE; }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 134 "tsl_lexer.l"
+#line 158 "tsl_lexer.l"
 { return EQ; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 135 "tsl_lexer.l"
+#line 159 "tsl_lexer.l"
 { return REQ; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 136 "tsl_lexer.l"
+#line 160 "tsl_lexer.l"
 { return RNE; }
 	YY_BREAK
 /* Date and time literals */
 case 24:
 YY_RULE_SETUP
-#line 139 "tsl_lexer.l"
+#line 163 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return RFC3339; }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 140 "tsl_lexer.l"
+#line 164 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return DATE; }
 	YY_BREAK
 /* Numeric literals */
 case 26:
 YY_RULE_SETUP
-#line 143 "tsl_lexer.l"
+#line 167 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 144 "tsl_lexer.l"
+#line 168 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 145 "tsl_lexer.l"
+#line 169 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 146 "tsl_lexer.l"
+#line 170 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 /* String literals and identifiers */
 case 30:
 /* rule 30 can match eol */
 YY_RULE_SETUP
-#line 149 "tsl_lexer.l"
+#line 173 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1083,7 +1107,7 @@ YY_RULE_SETUP
 case 31:
 /* rule 31 can match eol */
 YY_RULE_SETUP
-#line 157 "tsl_lexer.l"
+#line 181 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1095,7 +1119,7 @@ YY_RULE_SETUP
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-#line 165 "tsl_lexer.l"
+#line 189 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1106,77 +1130,77 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 173 "tsl_lexer.l"
+#line 197 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return IDENTIFIER; }
 	YY_BREAK
 /* Operators and delimiters */
 case 34:
 YY_RULE_SETUP
-#line 176 "tsl_lexer.l"
+#line 200 "tsl_lexer.l"
 { return LPAREN; }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 177 "tsl_lexer.l"
+#line 201 "tsl_lexer.l"
 { return RPAREN; }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 178 "tsl_lexer.l"
+#line 202 "tsl_lexer.l"
 { return COMMA; }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 179 "tsl_lexer.l"
+#line 203 "tsl_lexer.l"
 { return PLUS; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 180 "tsl_lexer.l"
+#line 204 "tsl_lexer.l"
 { return MINUS; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 181 "tsl_lexer.l"
+#line 205 "tsl_lexer.l"
 { return STAR; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 182 "tsl_lexer.l"
+#line 206 "tsl_lexer.l"
 { return SLASH; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 183 "tsl_lexer.l"
+#line 207 "tsl_lexer.l"
 { return PERCENT; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 184 "tsl_lexer.l"
+#line 208 "tsl_lexer.l"
 { return LBRACKET; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 185 "tsl_lexer.l"
+#line 209 "tsl_lexer.l"
 { return RBRACKET; }
 	YY_BREAK
 /* Whitespace handling */
 case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
-#line 188 "tsl_lexer.l"
+#line 212 "tsl_lexer.l"
 { /* Keep counting, error positions are input offsets */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
 YY_RULE_SETUP
-#line 189 "tsl_lexer.l"
+#line 213 "tsl_lexer.l"
 { /* Track column for whitespace */ }
 	YY_BREAK
 /* Error handling */
 case 46:
 YY_RULE_SETUP
-#line 192 "tsl_lexer.l"
+#line 216 "tsl_lexer.l"
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
@@ -1185,10 +1209,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 198 "tsl_lexer.l"
+#line 222 "tsl_lexer.l"
 ECHO;
 	YY_BREAK
-#line 1191 "../tsl/lex.yy.c"
+#line 1215 "../tsl/lex.yy.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2156,6 +2180,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 198 "tsl_lexer.l"
+#line 222 "tsl_lexer.l"
 
 
-- 
2.43.0


From 0151727d2442c5af29ca01c077650c58b265d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 08/36] fix: v6 modulus by a fraction does not panic

The operands of % are truncated to integers, a divisor such as 0.5 caused an
integer divide by zero panic.
---
 v6/pkg/walkers/semantics/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..12ee537 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -234,7 +234,7 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		}
 		return leftNum / rightNum, nil
 	case tsl.OpPercent:
-		if rightNum == 0 {
+		if int64(rightNum) == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
 		return float64(int64(leftNum) % int64(rightNum)), nil
-- 
2.43.0


From a73b5bf24b01212762fd1406d8ca98889e7784b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 09/36] fix: v6 comparing maps or slices for equality does not
 panic

---
 v6/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 12ee537..a073ef8 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,6 +208,10 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
+	// Values such as maps or slices can not be compared with Go’s built‑in equality
+	if !reflect.ValueOf(leftVal).Comparable() || !reflect.ValueOf(rightVal).Comparable() {
+		return reflect.DeepEqual(leftVal, rightVal), nil
+	}
 	// Fallback to Go’s built‑in equality for identical types
 	return leftVal == rightVal, nil
 }
-- 
2.43.0


From b81cea21a9f1b645e17ab02d61f0eb069ef9b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 10/36] fix: v6 LIKE patterns are not regular expressions

Only % and _ are special in a LIKE pattern, but characters such as . * ( were
interpreted as a regular expression, an invalid one never matched, and % did
not match a new line.
---
 v6/pkg/walkers/semantics/evaluators.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..49ae1bb 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -176,11 +176,12 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
+	// Convert SQL LIKE pattern to regex pattern, % and _ are the only special
+	// characters and they match anything, including new lines
+	patternStr = regexp.QuoteMeta(patternStr)
 	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
 	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
-	return matched, nil
+	return regexp.MatchString("(?s)^"+patternStr+"$", valueStr)
 }
 
 // evaluateIlikePattern performs case-insensitive pattern matching with SQL LIKE semantics
-- 
2.43.0


From c7706fa7790c0641b78760fa7dfb7910ed6bbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 11/36] fix: v6 date literals work with IN and BETWEEN

A short date literal (2020-01-01) is a string until it is compared, IN never
matched it and BETWEEN returned a type mismatch error, while = and < work.
---
 v6/pkg/walkers/semantics/evaluators.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 49ae1bb..a114668 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -65,6 +65,11 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 		return false, nil
 	}
 
+	// Date strings are dates, as they are when compared with =
+	if date, ok := toDate(value); ok {
+		value = date
+	}
+
 	switch value.(type) {
 	case string, float64, time.Time, bool:
 		// Continue with existing type-specific checks
@@ -90,7 +95,7 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 			}
 		case time.Time:
 			for _, item := range arr {
-				if t, ok := item.(time.Time); ok && t.Equal(v) {
+				if t, ok := toDate(item); ok && t.Equal(v) {
 					return true, nil
 				}
 			}
@@ -113,6 +118,11 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 // isValueInRange checks if a value is within a range (inclusive)
 // Supports both numeric values and time.Time comparisons
 func isValueInRange(value, min, max interface{}) (bool, error) {
+	// Date strings are dates, as they are when compared with = or <
+	if date, ok := toDate(value); ok {
+		value = date
+	}
+
 	switch v := value.(type) {
 	case float64:
 		minVal, okMin := toFloat64(min)
@@ -141,8 +151,8 @@ func isValueInRange(value, min, max interface{}) (bool, error) {
 		}
 		return v >= minVal && v <= maxVal, nil
 	case time.Time:
-		minTime, okMin := min.(time.Time)
-		maxTime, okMax := max.(time.Time)
+		minTime, okMin := toDate(min)
+		maxTime, okMax := toDate(max)
 		if !okMin || !okMax {
 			return false, &tsl.TypeMismatchError{
 				Expected: "time values",
-- 
2.43.0


From 7cff838edefdb5d10c9ea7a06061077ca0436e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 12/36] fix: v6 comparing a missing value is false, not an
 error

The README example tsl_mem -i "rating > 4 and title ~= 'Big'" failed with a
type mismatch because some books have no rating.
---
 v6/pkg/walkers/semantics/evaluators.go | 5 +++++
 v6/pkg/walkers/semantics/walk.go       | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index a114668..7d0fe99 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -118,6 +118,11 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 // isValueInRange checks if a value is within a range (inclusive)
 // Supports both numeric values and time.Time comparisons
 func isValueInRange(value, min, max interface{}) (bool, error) {
+	// A missing value is not in any range
+	if value == nil {
+		return false, nil
+	}
+
 	// Date strings are dates, as they are when compared with = or <
 	if date, ok := toDate(value); ok {
 		value = date
diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index a073ef8..7474125 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -269,6 +269,11 @@ func evaluateLogicalExpression(operator tsl.Operator, leftVal, rightVal interfac
 }
 
 func evaluateCompareExpressions(operator tsl.Operator, leftVal, rightVal interface{}) (interface{}, error) {
+	// A missing value is not smaller, equal or larger than any other
+	if leftVal == nil || rightVal == nil {
+		return false, nil
+	}
+
 	leftNum, leftIsNum := toFloat64(leftVal)
 	rightNum, rightIsNum := toFloat64(rightVal)
 	leftDate, leftIsDate := toDate(leftVal)
-- 
2.43.0


From 512dd00bfb7429eabc7fa86d524e628ef19dff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 13/36] fix: v6 ident walker visits the identifiers inside
 array literals

Identifiers in IN lists and BETWEEN bounds were neither checked nor replaced,
so a filter could use columns the check function rejects.
---
 v6/pkg/tsl/tsl.go            |  9 +++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 21 +++++++++++++++++++++
 4 files changed, 42 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 03126e7..7d17f8e 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -214,3 +214,12 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely attaches a child node as an element of an array literal node,
+// replacing the element at the given index
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 946ca67..3c5e882 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -326,3 +326,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+
+    if (node->data.array.elements[index]) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8aa8872..3815946 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -63,6 +63,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..95a9f35 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -146,6 +146,27 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		array := n.Value().(tsl.TSLArrayLiteral)
+
+		// Process the elements of the array
+		for i, element := range array.Values {
+			if element.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(element, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(element, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From 262954841f7feb09e1819142437629d683b9a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 14/36] fix: v6 ident walker frees its copy when it replaces
 the root

---
 v6/pkg/walkers/ident/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 95a9f35..2195fd7 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -71,6 +71,11 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		return nil, err
 	}
 
+	// The copy is not used if the root itself was replaced
+	if newTree != treeCopy {
+		treeCopy.Free()
+	}
+
 	return newTree, nil
 }
 
-- 
2.43.0


From 535a4313a7c12b91f8e2bb4924d876eb0ee9d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 15/36] fix: v6 sql walker handles date literals

A short date literal (2020-01-01) made the walker panic, and the zone and the
fraction of timestamps were dropped, so the filter used another instant.
---
 v6/pkg/walkers/sql/walk.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..fca5f17 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -42,9 +42,14 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindNumericLiteral:
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
-		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
-		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
+		switch t := n.Value().(type) {
+		case time.Time:
+			// Format time value using SQL timestamp format
+			s = sq.Expr("?", t.UTC().Format("2006-01-02 15:04:05.999999999"))
+		default:
+			// Dates without a time are already in SQL date format
+			s = sq.Expr("?", t)
+		}
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
 	case tsl.KindBooleanLiteral:
-- 
2.43.0


From 0ab661acb2da62cc8ab99fba08a700da8d666127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 16/36] fix: v6 sql walker keeps the grouping of nested
 conditions

A comparison or NOT used as an operand of another comparison lost its
parentheses: not a = 1 was written as NOT (a) = ?, a = (b = 1) as a = b = ?.
---
 v6/pkg/walkers/sql/walk.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index fca5f17..3f37f55 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -83,7 +83,7 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	var err error
 
 	for i, node := range array.Values {
-		values[i], err = Walk(node)
+		values[i], err = walkOperand(node)
 		if err != nil {
 			return nil, err
 		}
@@ -92,11 +92,42 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	return values, nil
 }
 
+// isCondition returns true for expressions that need parentheses when they are
+// an operand of a comparison or of an arithmetic operator
+func isCondition(n *tsl.TSLNode) bool {
+	switch n.Type() {
+	case tsl.KindBinaryExpr:
+		switch n.Value().(tsl.TSLExpressionOp).Operator {
+		case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpAnd, tsl.OpOr:
+			// Already in parentheses
+			return false
+		}
+		return true
+	case tsl.KindUnaryExpr:
+		return n.Value().(tsl.TSLExpressionOp).Operator == tsl.OpNot
+	}
+	return false
+}
+
+// walkOperand walks an operand of a comparison or of an arithmetic operator
+func walkOperand(n *tsl.TSLNode) (sq.Sqlizer, error) {
+	s, err := Walk(n)
+	if err == nil && isCondition(n) {
+		s = sq.Expr("(?)", s)
+	}
+	return s, err
+}
+
 func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 	op := n.Value().(tsl.TSLExpressionOp)
 
-	l, err = Walk(op.Left)
+	walk := walkOperand
+	if op.Operator == tsl.OpAnd || op.Operator == tsl.OpOr {
+		walk = Walk
+	}
+
+	l, err = walk(op.Left)
 	if err != nil {
 		return
 	}
@@ -122,7 +153,7 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 
 	// For non-array operations, handle normally
-	r, err := Walk(op.Right)
+	r, err := walk(op.Right)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 1e3ae15927c0b92cc25a0475ca7f2ab04ab1da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 17/36] fix: graphviz walkers write a valid and faithful dot
 graph

Values were written into quoted record labels without escaping, the four
letter random node IDs could collide (merging two nodes) and, in v6, the NULL
literal of an IS expression had an edge but no node.
---
 v4/pkg/walkers/graphviz/walk.go | 29 ++++++++++++++++++++++-------
 v5/pkg/walkers/graphviz/walk.go | 33 ++++++++++++++++++++++++---------
 v6/pkg/walkers/graphviz/walk.go | 24 +++++++++++++++++++++---
 3 files changed, 67 insertions(+), 19 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..1cd4af0 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -27,12 +27,27 @@ import (
 // Character poll for random string genrator.
 const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 
+// Length of a random node ID, long enough to make the IDs of a graph unique and
+// different from the dot file keywords.
+const idLength = 16
+
 // Default styles for .dot file output.
 const identStyle = "shape=record color=red"
 const numberStyle = "shape=record color=blue"
 const stringStyle = "shape=record color=blue"
 const opStyle = "shape=box color=black"
 
+// Characters that are special in a dot file string or in a record label.
+var labelEscaper = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, "\n", `\n`,
+	"{", `\{`, "}", `\}`, "|", `\|`, "<", `\<`, ">", `\>`,
+)
+
+// Escape a value for use in a node label.
+func escapeLabel(value interface{}) string {
+	return labelEscaper.Replace(fmt.Sprintf("%v", value))
+}
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -62,7 +77,7 @@ func randStr(l int) string {
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(idLength)
 	}
 
 	// If we have in string, add a new line break.
@@ -77,7 +92,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -85,15 +100,15 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %g\" ]",
+		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 			nodeID,
 			numberStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	default:
 		// Add node label.
@@ -105,7 +120,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := randStr(idLength)
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -128,7 +143,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := randStr(idLength)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..44522eb 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -27,6 +27,10 @@ import (
 // Character poll for random string genrator.
 const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 
+// Length of a random node ID, long enough to make the IDs of a graph unique and
+// different from the dot file keywords.
+const idLength = 16
+
 // Default styles for .dot file output.
 const identStyle = "shape=record color=red"
 const numberStyle = "shape=record color=blue"
@@ -34,6 +38,17 @@ const stringStyle = "shape=record color=blue"
 const dateStyle = "shape=record color=orange"
 const opStyle = "shape=box color=black"
 
+// Characters that are special in a dot file string or in a record label.
+var labelEscaper = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, "\n", `\n`,
+	"{", `\{`, "}", `\}`, "|", `\|`, "<", `\<`, ">", `\>`,
+)
+
+// Escape a value for use in a node label.
+func escapeLabel(value interface{}) string {
+	return labelEscaper.Replace(fmt.Sprintf("%v", value))
+}
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -63,7 +78,7 @@ func randStr(l int) string {
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(idLength)
 	}
 
 	// If we have in string, add a new line break.
@@ -78,7 +93,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -86,23 +101,23 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %g\" ]",
+		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 			nodeID,
 			numberStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.BooleanOp, tsl.DateOp:
 		// Add leaf label and value.
-		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
+		nodeLabel := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 			nodeID,
 			dateStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	default:
 		// Add node label.
@@ -114,7 +129,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := randStr(idLength)
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -137,7 +152,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := randStr(idLength)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..0e49dfb 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -25,6 +25,10 @@ import (
 )
 
 // Base styles for shared properties
+// Length of a random node ID, long enough to make the IDs of a graph unique and
+// different from the dot file keywords.
+const idLength = 16
+
 const baseRecordStyle = "shape=record"
 const baseBoxStyle = "shape=box"
 
@@ -37,6 +41,18 @@ const dateStyle = baseRecordStyle + " color=orange"
 const timestampStyle = baseRecordStyle + " color=orange"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
+const nullStyle = baseRecordStyle + " color=gray"
+
+// Characters that are special in a dot file string or in a record label.
+var labelEscaper = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, "\n", `\n`,
+	"{", `\{`, "}", `\}`, "|", `\|`, "<", `\<`, ">", `\>`,
+)
+
+// Escape a value for use in a node label.
+func escapeLabel(value interface{}) string {
+	return labelEscaper.Replace(fmt.Sprintf("%v", value))
+}
 
 // Generate a random string of specified length using only letters
 func randStr(l int) string {
@@ -57,7 +73,7 @@ func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType ts
 		nodeID,
 		style,
 		nodeType.String(),
-		value)
+		escapeLabel(value))
 	return fmt.Sprintf("%s%s", in, nodeStr)
 }
 
@@ -75,7 +91,7 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 	result := ""
 
 	for _, child := range children {
-		childID := randStr(4)
+		childID := randStr(idLength)
 		childrenIDs = append(childrenIDs, childID)
 
 		r, err := Walk(in, child, childID)
@@ -107,7 +123,7 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 //	s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(idLength)
 	}
 
 	switch n.Type() {
@@ -123,6 +139,8 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, timestampStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, nullStyle, n.Type(), n.Value())
 	case tsl.KindBinaryExpr:
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
-- 
2.43.0


From f45aedffcabca163edad46592432135c4483739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 18/36] fix: v4 and v5 ParseTSL is safe for concurrent use

The prediction tables of the generated lexer and parser are shared by all
the instances and are updated, unsynchronized, while parsing.
---
 v4/pkg/tsl/tsl.go | 9 +++++++++
 v5/pkg/tsl/tsl.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 5d1f08a..32dd9bd 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
+// parseMutex serializes the parsing, the tables of the generated lexer and parser
+// are shared by all the instances and are updated while parsing.
+var parseMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index c882193..3589a10 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
+// parseMutex serializes the parsing, the tables of the generated lexer and parser
+// are shared by all the instances and are updated while parsing.
+var parseMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
-- 
2.43.0


From d2aacf4b44d8f8b986fa0fdccc2be318f703eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 19/36] fix: v5 IN accepts boolean and date literals

The grammar accepts any literal in an IN list, the listener failed with a
stack error for booleans and dates.
---
 v5/pkg/tsl/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..9130dc4 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -385,7 +385,7 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 	p := l.pop()
 
 	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
+	if p.Func == StringOp || p.Func == NumberOp || p.Func == BooleanOp || p.Func == DateOp {
 		return l.popLiterals(append(in, p))
 	}
 
-- 
2.43.0


From 679c683e6894dd0e52dc7bd822aa04ca233575d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 20/36] fix: v4 and v5 math operators follow precedence and
 associate to the left

The right hand side of a math operator production may be a complete math
expression: a - b - c was parsed as a - (b - c), a * b + c as a * (b + c)
and a + 2 * c as (a + 2) * c.
---
 v4/pkg/tsl/listener.go | 121 ++++++++++++++++++++++++++++++++++------
 v5/pkg/tsl/listener.go | 122 +++++++++++++++++++++++++++++++++++------
 2 files changed, 211 insertions(+), 32 deletions(-)

diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index 3b27280..c732d75 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -20,6 +20,8 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
@@ -78,27 +80,27 @@ func (l *Listener) ExitStringLiteral(c *parser.StringLiteralContext) {
 
 // ExitMulOps is called when production multiply op is exited.
 func (l *Listener) ExitMulOps(c *parser.MulOpsContext) {
-	l.exitMathOps(MultiplyOp)
+	l.exitMathOps(c)
 }
 
 // ExitDivOps is called when production div op is exited.
 func (l *Listener) ExitDivOps(c *parser.DivOpsContext) {
-	l.exitMathOps(DivideOp)
+	l.exitMathOps(c)
 }
 
 // ExitModOps is called when production modulo op is exited.
 func (l *Listener) ExitModOps(c *parser.ModOpsContext) {
-	l.exitMathOps(ModuloOp)
+	l.exitMathOps(c)
 }
 
 // ExitAddOps is called when production add op is exited.
 func (l *Listener) ExitAddOps(c *parser.AddOpsContext) {
-	l.exitMathOps(AddOp)
+	l.exitMathOps(c)
 }
 
 // ExitSubOps is called when production subtract op is exited.
 func (l *Listener) ExitSubOps(c *parser.SubOpsContext) {
-	l.exitMathOps(SubtractOp)
+	l.exitMathOps(c)
 }
 
 // ExitLiteralOps is called when production LiteralOps is exited.
@@ -276,23 +278,110 @@ func (l *Listener) ExitOr(c *parser.OrContext) {
 	l.push(n)
 }
 
-// exitMathOps is called when production math operator is exited.
-func (l *Listener) exitMathOps(op string) {
-	right, left := l.pop(), l.pop()
+// mathOpContext is the context of a math operator production.
+type mathOpContext interface {
+	antlr.ParserRuleContext
+
+	AllMathExp() []parser.IMathExpContext
+}
+
+// mathOp returns the operator of a math operator production, or an empty string if
+// c is not a math operator production.
+func mathOp(c antlr.Tree) string {
+	switch c.(type) {
+	case *parser.MulOpsContext:
+		return MultiplyOp
+	case *parser.DivOpsContext:
+		return DivideOp
+	case *parser.ModOpsContext:
+		return ModuloOp
+	case *parser.AddOpsContext:
+		return AddOp
+	case *parser.SubOpsContext:
+		return SubtractOp
+	}
+
+	return ""
+}
 
-	// Check right op is not a string.
-	if right.Func == StringOp {
-		l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+// mathOps collects, in order, the operators of a math expression, without the
+// operators inside parentheses.
+func mathOps(c antlr.Tree, ops []string) []string {
+	op := mathOp(c)
+	if op == "" {
+		return ops
+	}
+
+	// The right hand side is a math expression or a literal.
+	sides := c.(mathOpContext).AllMathExp()
+	if len(sides) > 0 {
+		ops = mathOps(sides[0], ops)
+	}
+	ops = append(ops, op)
+	if len(sides) > 1 {
+		ops = mathOps(sides[1], ops)
+	}
+
+	return ops
+}
+
+// mathPrecedence returns the precedence of a math operator.
+func mathPrecedence(op string) int {
+	if op == AddOp || op == SubtractOp {
+		return 1
+	}
+
+	return 2
+}
+
+// exitMathOps is called when production math operator is exited.
+//
+// The right hand side of a math operator production is a complete math expression,
+// the nesting of the productions does not follow the precedence of the operators.
+// The operands are left on the stack until the outermost production is exited,
+// the operators are then applied by precedence, from left to right.
+func (l *Listener) exitMathOps(c mathOpContext) {
+	// Check if this is an operand of another math operator.
+	if mathOp(c.GetParent()) != "" {
 		return
 	}
 
-	n := Node{
-		Func:  op,
-		Left:  left,
-		Right: right,
+	// Get the operators and the operands.
+	ops := mathOps(c, nil)
+	operands := make([]Node, len(ops)+1)
+	for i := len(ops); i >= 0; i-- {
+		operands[i] = l.pop()
 	}
 
-	l.push(n)
+	// Check right ops are not strings.
+	for _, right := range operands[1:] {
+		if right.Func == StringOp {
+			l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+			return
+		}
+	}
+
+	// First multiply, divide and modulo, then add and subtract.
+	for precedence := 2; precedence >= 1; precedence-- {
+		nodes, rest := operands[:1], ops[:0]
+		for i, op := range ops {
+			right := operands[i+1]
+			if mathPrecedence(op) != precedence {
+				nodes, rest = append(nodes, right), append(rest, op)
+				continue
+			}
+
+			left := nodes[len(nodes)-1]
+			nodes[len(nodes)-1] = Node{
+				Func:  op,
+				Left:  left,
+				Right: right,
+			}
+		}
+		operands, ops = nodes, rest
+	}
+
+	l.push(operands[0])
 }
 
 // ExitColumnIdentifier is called when exiting a literal production.
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index 9130dc4..4958e91 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -22,6 +22,8 @@ import (
 	"strings"
 	"time"
 
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
@@ -147,27 +149,27 @@ func (l *Listener) ExitShortDateLiteral(c *parser.ShortDateLiteralContext) {
 
 // ExitMulOps is called when production multiply op is exited.
 func (l *Listener) ExitMulOps(c *parser.MulOpsContext) {
-	l.exitMathOps(MultiplyOp)
+	l.exitMathOps(c)
 }
 
 // ExitDivOps is called when production div op is exited.
 func (l *Listener) ExitDivOps(c *parser.DivOpsContext) {
-	l.exitMathOps(DivideOp)
+	l.exitMathOps(c)
 }
 
 // ExitModOps is called when production modulo op is exited.
 func (l *Listener) ExitModOps(c *parser.ModOpsContext) {
-	l.exitMathOps(ModuloOp)
+	l.exitMathOps(c)
 }
 
 // ExitAddOps is called when production add op is exited.
 func (l *Listener) ExitAddOps(c *parser.AddOpsContext) {
-	l.exitMathOps(AddOp)
+	l.exitMathOps(c)
 }
 
 // ExitSubOps is called when production subtract op is exited.
 func (l *Listener) ExitSubOps(c *parser.SubOpsContext) {
-	l.exitMathOps(SubtractOp)
+	l.exitMathOps(c)
 }
 
 // ExitLiteralOps is called when production LiteralOps is exited.
@@ -345,23 +347,111 @@ func (l *Listener) ExitOr(c *parser.OrContext) {
 	l.push(n)
 }
 
-// exitMathOps is called when production math operator is exited.
-func (l *Listener) exitMathOps(op string) {
-	right, left := l.pop(), l.pop()
+// mathOpContext is the context of a math operator production.
+type mathOpContext interface {
+	antlr.ParserRuleContext
+
+	MathExp() parser.IMathExpContext
+	LiteralOrMath() parser.ILiteralOrMathContext
+}
+
+// mathOp returns the operator of a math operator production, or an empty string if
+// c is not a math operator production.
+func mathOp(c antlr.Tree) string {
+	switch c.(type) {
+	case *parser.MulOpsContext:
+		return MultiplyOp
+	case *parser.DivOpsContext:
+		return DivideOp
+	case *parser.ModOpsContext:
+		return ModuloOp
+	case *parser.AddOpsContext:
+		return AddOp
+	case *parser.SubOpsContext:
+		return SubtractOp
+	}
+
+	return ""
+}
+
+// mathOps collects, in order, the operators of a math expression, without the
+// operators inside parentheses.
+func mathOps(c antlr.Tree, ops []string) []string {
+	if r, ok := c.(*parser.LiteralOrMathContext); ok {
+		c = r.MathExp()
+	}
+
+	op := mathOp(c)
+	if op == "" {
+		return ops
+	}
+
+	m := c.(mathOpContext)
+	ops = append(mathOps(m.MathExp(), ops), op)
+	return mathOps(m.LiteralOrMath(), ops)
+}
+
+// mathPrecedence returns the precedence of a math operator.
+func mathPrecedence(op string) int {
+	if op == AddOp || op == SubtractOp {
+		return 1
+	}
 
-	// Check right op is not a string.
-	if right.Func == StringOp {
-		l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+	return 2
+}
+
+// exitMathOps is called when production math operator is exited.
+//
+// The right hand side of a math operator production is a complete math expression,
+// the nesting of the productions does not follow the precedence of the operators.
+// The operands are left on the stack until the outermost production is exited,
+// the operators are then applied by precedence, from left to right.
+func (l *Listener) exitMathOps(c mathOpContext) {
+	// Check if this is an operand of another math operator.
+	parent := c.GetParent()
+	if _, ok := parent.(*parser.LiteralOrMathContext); ok {
+		parent = parent.GetParent()
+	}
+	if mathOp(parent) != "" {
 		return
 	}
 
-	n := Node{
-		Func:  op,
-		Left:  left,
-		Right: right,
+	// Get the operators and the operands.
+	ops := mathOps(c, nil)
+	operands := make([]Node, len(ops)+1)
+	for i := len(ops); i >= 0; i-- {
+		operands[i] = l.pop()
 	}
 
-	l.push(n)
+	// Check right ops are not strings.
+	for _, right := range operands[1:] {
+		if right.Func == StringOp {
+			l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+			return
+		}
+	}
+
+	// First multiply, divide and modulo, then add and subtract.
+	for precedence := 2; precedence >= 1; precedence-- {
+		nodes, rest := operands[:1], ops[:0]
+		for i, op := range ops {
+			right := operands[i+1]
+			if mathPrecedence(op) != precedence {
+				nodes, rest = append(nodes, right), append(rest, op)
+				continue
+			}
+
+			left := nodes[len(nodes)-1]
+			nodes[len(nodes)-1] = Node{
+				Func:  op,
+				Left:  left,
+				Right: right,
+			}
+		}
+		operands, ops = nodes, rest
+	}
+
+	l.push(operands[0])
 }
 
 // ExitColumnIdentifier is called when exiting a literal production.
-- 
2.43.0


From cac798ec8fef581a8770f2ba4f5eb6a3aae9ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 21/36] fix: v5 semantics walker evaluates nested and modulo
 math operators

An operator inside an operand of another operator, and every modulo, failed
with an unexpected literal error. (a % b) is null was false for any a and b.
---
 v5/pkg/walkers/semantics/walk.go | 50 +++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..57e2314 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strings"
 	"time"
@@ -83,7 +84,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if isMathOp(l.Func) {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +106,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if isMathOp(r.Func) {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
@@ -286,24 +287,42 @@ func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	return n, nil
 }
 
+// isMathOp tells whether f is a math operator.
+func isMathOp(f string) bool {
+	switch f {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
+// evalMathOperand evaluates an operand of a math operator.
+func evalMathOperand(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	switch {
+	case n.Func == tsl.IdentOp:
+		return evalIdentNode(n, eval)
+	case isMathOp(n.Func):
+		return handleMathOp(n, eval)
+	}
+
+	return n, nil
+}
+
 func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	var err error
 
 	left := n.Left.(tsl.Node)
 	right := n.Right.(tsl.Node)
 
-	// Check for identifiers.
-	if left.Func == tsl.IdentOp {
-		left, err = evalIdentNode(left, eval)
-		if err != nil {
-			return n, err
-		}
+	// Check for identifiers and nested math operators.
+	left, err = evalMathOperand(left, eval)
+	if err != nil {
+		return n, err
 	}
-	if right.Func == tsl.IdentOp {
-		right, err = evalIdentNode(right, eval)
-		if err != nil {
-			return n, err
-		}
+	right, err = evalMathOperand(right, eval)
+	if err != nil {
+		return n, err
 	}
 
 	// Check for null
@@ -341,6 +360,11 @@ func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 			Func: tsl.NumberOp,
 			Left: left.Left.(float64) / right.Left.(float64),
 		}
+	case tsl.ModuloOp:
+		n = tsl.Node{
+			Func: tsl.NumberOp,
+			Left: math.Mod(left.Left.(float64), right.Left.(float64)),
+		}
 	default:
 		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v %v", left.Left, right.Left)}
 	}
-- 
2.43.0


From 5a30e89d8a9fdc1436ccd5d7285444ee442f42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 22/36] fix: v4 and v5 semantics walker BETWEEN includes the
 end value

The SQL and the mongo walkers, and v6, include both ends, the semantics walker
did not include the end value.
---
 v4/pkg/walkers/semantics/walk.go |  8 ++++----
 v5/pkg/walkers/semantics/walk.go | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..06a81f5 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -277,11 +277,11 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -310,11 +310,11 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 57e2314..081137a 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -584,7 +584,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(string)
 		if !ok {
@@ -594,7 +594,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -637,7 +637,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(float64)
 		if !ok {
@@ -647,7 +647,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -690,7 +690,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return !left.Before(begin) && left.Before(end), nil
+		return !left.Before(begin) && !left.After(end), nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(time.Time)
 		if !ok {
@@ -700,7 +700,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left.Before(begin) || !left.Before(end), nil
+		return left.Before(begin) || left.After(end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0


From 1b10268bdc2f66585aef62b96bd37b812af28b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 23/36] fix: v5 semantics walker compares dates as instants

=, !=, IN and NOT IN compared the time structs, the same instant in two time
zones was not equal to itself (it was neither before nor after it).
---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 081137a..36af4e6 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -479,9 +479,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -708,7 +708,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -718,7 +718,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From 4a6610db577dba9a9f4f4a0564eacbcedd66c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 24/36] fix: v4 and v5 LIKE wildcards match a newline

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 06a81f5..46f5ecc 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -370,7 +370,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 36af4e6..8fbb042 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -764,7 +764,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From e7d69b898f5ae4ad36f92cbec95c93a20bf06ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 25/36] fix: v4 semantics walker does not panic on a mixed type
 IN or BETWEEN

name in (1, 2) or pages between 'a' and 'b' panicked on the type assertion of
the literal, report an unexpected literal error like v5 does.
---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 46f5ecc..984f7b8 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == s
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != s
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == f
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != f
 		}
 		return b, nil
 	}
-- 
2.43.0


From cfdc92242fd3a7aa1fe07d9c3bb96e1da60978a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 26/36] fix: v5 semantics walker does not panic on a right hand
 string array

name = tags, when the value of tags is a string array, panicked.
---
 v5/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 8fbb042..6ee4853 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -132,6 +132,11 @@ func runSemantics(n tsl.Node, eval EvalFunc) (bool, error) {
 			return false, nil
 		}
 
+		if r.Func == tsl.ArrayOp && r.Right == nil && l.Func != tsl.NullOp {
+			// The right hand side is a string array value and not a list of literals.
+			return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+		}
+
 		switch l.Func {
 		case tsl.ArrayOp:
 			// This is a case of "has-many-table.fld IN (...)"
-- 
2.43.0


From 2fb55cada258758b701753798cbee6abb5287452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 27/36] fix: v5 sql walker supports right hand identifiers and
 math expressions

The parser and the semantics walker support a = b and a > (b + 1), the sql
walker bound the name of the column, or a tree node, as the literal value.
A date inside a math expression was written without quotes.
---
 v5/pkg/walkers/sql/walk.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..f58c30f 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -105,6 +105,26 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// compareOps maps the comparison operators to SQL operators.
+var compareOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+}
+
+// isColumnExp tells whether a node is an identifier or a math expression.
+func isColumnExp(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
@@ -120,6 +140,19 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// Check for a right hand side identifier or math expression.
+	if op, ok := compareOps[n.Func]; ok && isColumnExp(n.Right.(tsl.Node)) {
+		var r sq.Sqlizer
+
+		r, err = Walk(n.Right.(tsl.Node))
+		if err != nil {
+			return
+		}
+
+		s = sq.ConcatExpr(sql, " ", op, " ", r)
+		return
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
@@ -190,7 +223,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		s = sq.Expr(f)
 	case tsl.DateOp:
 		f := n.Left.(time.Time).Format(time.RFC3339)
-		s = sq.Expr(f)
+		s = sq.Expr("'" + f + "'")
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.BooleanOp:
-- 
2.43.0


From 3a1c5e28ec2e6075aa6d0dc1c7063b772b1322ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 28/36] fix: v5 sql walker keeps the fraction of a second of
 date literals

---
 v5/pkg/walkers/sql/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index f58c30f..9432458 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -56,7 +56,7 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 			}
 			s = append(s, v)
 		case tsl.DateOp:
-			d := n.Left.(time.Time).Format(time.RFC3339)
+			d := n.Left.(time.Time).Format(time.RFC3339Nano)
 			s = append(s, d)
 		default:
 			s = append(s, n.Left)
@@ -222,7 +222,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.DateOp:
-		f := n.Left.(time.Time).Format(time.RFC3339)
+		f := n.Left.(time.Time).Format(time.RFC3339Nano)
 		s = sq.Expr("'" + f + "'")
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
-- 
2.43.0


From e546631da3d73454555f72357bc39417c2d063e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 29/36] fix: v4 and v5 mongo walker reports operands it does
 not support

a + 1 > 5 was a filter on a field with an empty name, a = b compared the field
a to the string 'b' and a = (b + 1) to a tree node.
---
 v4/pkg/walkers/mongo/walk.go | 29 +++++++++++++++++++++++++++++
 v5/pkg/walkers/mongo/walk.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..93e761d 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -23,6 +23,25 @@ import (
 	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
 )
 
+// checkOperands checks that the left hand side of a field operator is an identifier
+// and that the right hand side, if exist, is a literal or an array of literals.
+func checkOperands(n tsl.Node) error {
+	if l := n.Left.(tsl.Node); l.Func != tsl.IdentOp {
+		return tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+	if n.Right == nil {
+		return nil
+	}
+
+	r := n.Right.(tsl.Node)
+	switch r.Func {
+	case tsl.ArrayOp, tsl.StringOp, tsl.NumberOp:
+		return nil
+	}
+
+	return tsl.UnexpectedLiteralError{Literal: r.Func}
+}
+
 // Returns the identifier setring from an IdentOp operator node.
 func identString(n interface{}) string {
 	// This is an identifier.
@@ -80,6 +99,16 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	// Check the operands of operators on a field.
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
+		tsl.InOp, tsl.NotInOp, tsl.IsNilOp, tsl.IsNotNilOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		err = checkOperands(n)
+		if err != nil {
+			return
+		}
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..e3e99c1 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -23,6 +23,25 @@ import (
 	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
 )
 
+// checkOperands checks that the left hand side of a field operator is an identifier
+// and that the right hand side, if exist, is a literal or an array of literals.
+func checkOperands(n tsl.Node) error {
+	if l := n.Left.(tsl.Node); l.Func != tsl.IdentOp {
+		return tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+	if n.Right == nil {
+		return nil
+	}
+
+	r := n.Right.(tsl.Node)
+	switch r.Func {
+	case tsl.ArrayOp, tsl.StringOp, tsl.NumberOp, tsl.BooleanOp, tsl.DateOp:
+		return nil
+	}
+
+	return tsl.UnexpectedLiteralError{Literal: r.Func}
+}
+
 // Returns the identifier setring from an IdentOp operator node.
 func identString(n interface{}) string {
 	// This is an identifier.
@@ -80,6 +99,16 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	// Check the operands of operators on a field.
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
+		tsl.InOp, tsl.NotInOp, tsl.IsNilOp, tsl.IsNotNilOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		err = checkOperands(n)
+		if err != nil {
+			return
+		}
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
-- 
2.43.0


From 5fafecd3a6bfdbb596df4c13ac25503b4654415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 30/36] fix: v4 and v5 a key that is not found is null whatever
 value comes with it

---
 v4/pkg/walkers/semantics/walk.go | 6 +++++-
 v5/pkg/walkers/semantics/walk.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 984f7b8..a3f43c3 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -124,7 +124,11 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 func handleIdent(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	l := n.Left.(tsl.Node)
 
-	_v, _ := eval(l.Left.(string))
+	_v, ok := eval(l.Left.(string))
+	if !ok {
+		// No value is found for this key.
+		_v = nil
+	}
 	switch v := _v.(type) {
 	case string:
 		n.Left = tsl.Node{
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 6ee4853..4ad34a8 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -216,7 +216,11 @@ func handleIdentRight(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 }
 
 func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
-	_v, _ := eval(node.Left.(string))
+	_v, ok := eval(node.Left.(string))
+	if !ok {
+		// No value is found for this key.
+		_v = nil
+	}
 	n := tsl.Node{}
 
 	switch v := _v.(type) {
-- 
2.43.0


From 12a73cdf96afb71cac73cf5f0a5232718b35f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 31/36] fix: v4 and v5 mongo walker gives an empty array for an
 empty IN list

---
 v4/pkg/walkers/mongo/walk.go | 3 +++
 v5/pkg/walkers/mongo/walk.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 93e761d..ddd50b5 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -65,6 +65,9 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+
+	// An empty list is an empty array, mongo rejects a null.
+	values = []interface{}{}
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index e3e99c1..b1f56d0 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -65,6 +65,9 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+
+	// An empty list is an empty array, mongo rejects a null.
+	values = []interface{}{}
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
-- 
2.43.0


From b34757da54b0951aae9aa3d945af5889ae8cb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 32/36] fix: v5 tsl_gorm maps on_loan to the name of its column

---
 v5/cmd/tsl_gorm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index b1374d4..6d0ec9f 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -42,7 +42,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "pages",
 	"spec.rating": "rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on_loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 1cd012f1252fb70b7fd74283e7577e37b8f54dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 33/36] fix: v4 and v5 tsl_graphql closes the database of a
 request

---
 v4/cmd/tsl_graphql/main.go  | 9 +++++++--
 v4/cmd/tsl_graphql/model.go | 4 +---
 v5/cmd/tsl_graphql/main.go  | 9 +++++++--
 v5/cmd/tsl_graphql/model.go | 4 +---
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/v4/cmd/tsl_graphql/main.go b/v4/cmd/tsl_graphql/main.go
index 56df830..bdf19c0 100644
--- a/v4/cmd/tsl_graphql/main.go
+++ b/v4/cmd/tsl_graphql/main.go
@@ -96,7 +96,10 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	var rows *sql.Rows
 
 	// Try to connect to sqlite driver.
-	tx, err := connect(ctx, *filePtr)
+	db, tx, err := connect(ctx, *filePtr)
+	if db != nil {
+		defer db.Close()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -130,6 +133,7 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	for rows.Next() {
 		elem := model.Book{}
@@ -167,13 +171,14 @@ func main() {
 
 	// Create a clean books collection.
 	if *preparePtr {
-		tx, err := connect(ctx, *filePtr)
+		db, tx, err := connect(ctx, *filePtr)
 		check(err)
 
 		err = prepareCollection(ctx, tx)
 		check(err)
 
 		tx.Commit()
+		db.Close()
 	}
 
 	rootQuery := graphql.NewObject(graphql.ObjectConfig{
diff --git a/v4/cmd/tsl_graphql/model.go b/v4/cmd/tsl_graphql/model.go
index 2ddf90b..1c5a0cb 100644
--- a/v4/cmd/tsl_graphql/model.go
+++ b/v4/cmd/tsl_graphql/model.go
@@ -35,9 +35,7 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
-
+func connect(ctx context.Context, url string) (db *sql.DB, tx *sql.Tx, err error) {
 	db, err = sql.Open("sqlite3", url)
 	check(err)
 
diff --git a/v5/cmd/tsl_graphql/main.go b/v5/cmd/tsl_graphql/main.go
index 4f161b4..4068a73 100644
--- a/v5/cmd/tsl_graphql/main.go
+++ b/v5/cmd/tsl_graphql/main.go
@@ -100,7 +100,10 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	var rows *sql.Rows
 
 	// Try to connect to sqlite driver.
-	tx, err := connect(ctx, *filePtr)
+	db, tx, err := connect(ctx, *filePtr)
+	if db != nil {
+		defer db.Close()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -134,6 +137,7 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	for rows.Next() {
 		elem := model.Book{}
@@ -172,13 +176,14 @@ func main() {
 
 	// Create a clean books collection.
 	if *preparePtr {
-		tx, err := connect(ctx, *filePtr)
+		db, tx, err := connect(ctx, *filePtr)
 		check(err)
 
 		err = prepareCollection(ctx, tx)
 		check(err)
 
 		tx.Commit()
+		db.Close()
 	}
 
 	rootQuery := graphql.NewObject(graphql.ObjectConfig{
diff --git a/v5/cmd/tsl_graphql/model.go b/v5/cmd/tsl_graphql/model.go
index c4d72f1..f58f756 100644
--- a/v5/cmd/tsl_graphql/model.go
+++ b/v5/cmd/tsl_graphql/model.go
@@ -36,9 +36,7 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
-
+func connect(ctx context.Context, url string) (db *sql.DB, tx *sql.Tx, err error) {
 	db, err = sql.Open("sqlite3", url)
 	check(err)
 
-- 
2.43.0


From caef3493e48574bba70e1c7c084f29fd6f6e8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 34/36] fix: v5 tsl_mongo maps on_loan to the field its
 documents have

The books are stored with the bson name on-loan, the column map of
tsl_mongo named the field onloan, so phrases of on_loan never matched a
document.
---
 v5/cmd/tsl_mongo/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index a34a9ab..a27dfa2 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -44,7 +44,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "spec.pages",
 	"spec.rating": "spec.rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on-loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From c5f1439ba63016d142645749b53d66f4f4a1b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 35/36] fix: v6 trees with detached parts can be read by every
 walker

Value() wrapped a missing C child in a non nil TSLNode, so marshalling and
the walkers followed a NULL pointer. Missing parts are nil now, as the nil
checks of the readers expect.
---
 v6/pkg/tsl/tsl.go               | 16 ++++++++++++----
 v6/pkg/walkers/graphviz/walk.go |  9 +++++++++
 v6/pkg/walkers/ident/walk.go    |  8 ++++----
 v6/pkg/walkers/sql/walk.go      |  8 ++++++++
 4 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 7d17f8e..2da49b9 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -90,6 +90,14 @@ func ParseTSL(input string) (*TSLNode, error) {
 	return &TSLNode{cNode: cNode}, nil
 }
 
+// newNode wraps a part of a tree, a part that was detached is nil
+func newNode(cNode *C.ast_node) *TSLNode {
+	if cNode == nil {
+		return nil
+	}
+	return &TSLNode{cNode: cNode}
+}
+
 // Free releases the memory allocated for the AST
 func (n *TSLNode) Free() {
 	if n.cNode != nil {
@@ -132,20 +140,20 @@ func (n *TSLNode) Value() interface{} {
 	case KindBinaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_binary_op(n.cNode)),
-			Left:     &TSLNode{cNode: C.get_binary_left(n.cNode)},
-			Right:    &TSLNode{cNode: C.get_binary_right(n.cNode)},
+			Left:     newNode(C.get_binary_left(n.cNode)),
+			Right:    newNode(C.get_binary_right(n.cNode)),
 		}
 	case KindUnaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_unary_op(n.cNode)),
 			Left:     nil,
-			Right:    &TSLNode{cNode: C.get_unary_child(n.cNode)},
+			Right:    newNode(C.get_unary_child(n.cNode)),
 		}
 	case KindArrayLiteral:
 		size := int(C.get_array_size(n.cNode))
 		values := make([]*TSLNode, size)
 		for i := 0; i < size; i++ {
-			values[i] = &TSLNode{cNode: C.get_array_element(n.cNode, C.int(i))}
+			values[i] = newNode(C.get_array_element(n.cNode, C.int(i)))
 		}
 		return TSLArrayLiteral{Values: values}
 	case KindNullLiteral:
diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 0e49dfb..a570612 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -91,6 +91,11 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 	result := ""
 
 	for _, child := range children {
+		// A part that was detached from the tree
+		if child == nil {
+			continue
+		}
+
 		childID := randStr(idLength)
 		childrenIDs = append(childrenIDs, childID)
 
@@ -122,6 +127,10 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 //	s, err = graphviz.Walk("", tree, "")
 //	s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
+	if n == nil {
+		return "", tsl.UnexpectedLiteralError{Literal: nil}
+	}
+
 	if nodeID == "" {
 		nodeID = randStr(idLength)
 	}
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2195fd7..5e1d10c 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -102,7 +102,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process both sides of the binary expression
 		left := op.Left
-		if left.Type() == tsl.KindIdentifier {
+		if left != nil && left.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(left, check)
 			if err != nil {
 				return nil, err
@@ -116,7 +116,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 		}
 
 		right := op.Right
-		if right.Type() == tsl.KindIdentifier {
+		if right != nil && right.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(right, check)
 			if err != nil {
 				return nil, err
@@ -136,7 +136,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process the operand
 		right := op.Right
-		if right.Type() == tsl.KindIdentifier {
+		if right != nil && right.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(right, check)
 			if err != nil {
 				return nil, err
@@ -156,7 +156,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process the elements of the array
 		for i, element := range array.Values {
-			if element.Type() == tsl.KindIdentifier {
+			if element != nil && element.Type() == tsl.KindIdentifier {
 				newNode, err := processIdentifier(element, check)
 				if err != nil {
 					return nil, err
diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 3f37f55..5af4688 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -36,6 +36,11 @@ import (
 //
 // Squirrel: https://github.com/Masterminds/squirrel
 func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
+	// A part that was detached from the tree
+	if n == nil {
+		return nil, tsl.UnexpectedLiteralError{Literal: nil}
+	}
+
 	switch n.Type() {
 	case tsl.KindIdentifier:
 		s = sq.Expr(n.Value().(string))
@@ -74,6 +79,9 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 
 // Helper function to walk array nodes and return values
 func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
+	if n == nil {
+		return nil, tsl.UnexpectedLiteralError{Literal: nil}
+	}
 	if n.Type() != tsl.KindArrayLiteral {
 		return nil, tsl.UnexpectedTypeError{Type: n.Type()}
 	}
-- 
2.43.0


From 9abb28f9ede069b48d2132fd6cbe67520642a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:12 +0000
Subject: [PATCH 36/36] fix: v6 tsl_parser prints YAML without an additional
 line break

The line break that was added after the document became part of a string
at its end, if that ends with line breaks.
---
 v6/cmd/tsl_parser/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/cmd/tsl_parser/main.go b/v6/cmd/tsl_parser/main.go
index 163f59d..8827462 100644
--- a/v6/cmd/tsl_parser/main.go
+++ b/v6/cmd/tsl_parser/main.go
@@ -16,6 +16,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -60,6 +61,9 @@ func main() {
 		s, err = json.Marshal(tree)
 	case "yaml":
 		s, err = yaml.Marshal(tree)
+		// The document ends with a line break, the one that is added when it is printed
+		// would become part of a string at its end that ends with line breaks.
+		s = bytes.TrimSuffix(s, []byte("\n"))
 	case "dot":
 		st, err = graphviz.Walk("", tree, "root")
 		s = []byte(fmt.Sprintf("digraph {\n%s\n}\n", st))
-- 
2.43.0

