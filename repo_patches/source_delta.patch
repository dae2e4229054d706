From 0567cc03737516725edb7d6acb0f23cdca50f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 01/64] fix: honour parentheses and operator precedence beyond
 one level in expressions

---
 skull/parse/ast_node.c | 54 +++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..0be194b 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <stdbool.h>
 #include <string.h>
 
@@ -18,6 +19,7 @@ typedef struct {
 } ParserCtx;
 
 static AstNodeExpr *parse_expression(ParserCtx *);
+static AstNodeExpr *parse_expression_(ParserCtx *, unsigned);
 static AstNodeExpr *parse_func_call(ParserCtx *);
 static AstNode *parse_ast_tree_(ParserCtx *);
 static void free_ast_function_proto(AstNode *);
@@ -34,7 +36,7 @@ static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
 static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -659,37 +661,38 @@ Try and generate AST node for expression.
 Returns node if one was added, NULL otherwise.
 */
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
+	return parse_expression_(ctx, UINT_MAX);
+}
+
+/*
+Parse an expression, only consuming binary operators which bind tighter then
+`max_precedence`.
+*/
+static AstNodeExpr *parse_expression_(
+	ParserCtx *ctx,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return NULL;
 
-	AstNodeExpr *head = parse_single_expr(ctx);
-	if (ctx->err) return NULL;
+	AstNodeExpr *current = parse_single_expr(ctx);
+	if (ctx->err || !current) {
+		free_expr_node(current);
+		return NULL;
+	}
 
-	AstNodeExpr *current = head;
 	AstNodeExpr *last = NULL;
 
 	while (last != current) {
 		last = current;
 
-		current = parse_expr_rhs(ctx, current);
+		current = parse_expr_rhs(ctx, current, max_precedence);
 		if (ctx->err) {
-			free_expr_node(head);
+			free_expr_node(last);
 			return NULL;
 		}
-
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
-
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
 	}
 
-	return last ? last : current;
+	return current;
 }
 
 static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
@@ -720,7 +723,7 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = parse_expression_(ctx, oper_to_precedence(unary_oper))
 	};
 
 	return expr;
@@ -765,7 +768,11 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return expr;
 
 	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
@@ -777,10 +784,13 @@ static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
 		return NULL;
 	}
 
+	const unsigned precedence = oper_to_precedence(oper);
+	if (precedence >= max_precedence) return expr;
+
 	Token *oper_token = ctx->token;
 	next_token(ctx);
 
-	AstNodeExpr *rhs = parse_single_expr(ctx);
+	AstNodeExpr *rhs = parse_expression_(ctx, precedence);
 	if (!rhs) {
 		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
 
-- 
2.43.0


From 10bbdf747bddee194d49ad3ae1b6c39eab6637e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 02/64] fix: do not crash or fail silently when a statement is
 cut off by end of file

---
 skull/parse/ast_node.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 0be194b..17b011c 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -140,7 +140,9 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &name_token->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -217,7 +219,9 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &last->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -274,7 +278,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
@@ -412,7 +416,10 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 }
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
-	if (!ctx->token || !ctx->token->next) {
+	const Token *keyword = ctx->token;
+
+	if (!ctx->token->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = keyword });
 		ctx->err = true;
 		return;
 	}
@@ -423,7 +430,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : keyword
+		});
 		ctx->err = true;
 
 		return;
@@ -450,7 +459,8 @@ static void parse_while(ParserCtx *ctx) {
 }
 
 static void parse_namespace(ParserCtx *ctx) {
-	if (!ctx->token || !ctx->token->next) {
+	if (!ctx->token->next) {
+		FMT_ERROR(ERR_MISSING_BLOCK, { .tok = ctx->token });
 		ctx->err = true;
 		return;
 	}
-- 
2.43.0


From 5838911d0db96b40ca4305cc0814cd3177310dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:15 +0000
Subject: [PATCH 03/64] fix: report a unary operator that has no operand
 instead of dereferencing NULL

---
 skull/parse/ast_node.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 17b011c..19cbdf4 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -730,10 +730,18 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	AstNodeExpr *rhs = parse_expression_(ctx, oper_to_precedence(unary_oper));
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_expression_(ctx, oper_to_precedence(unary_oper))
+		.rhs = rhs
 	};
 
 	return expr;
-- 
2.43.0


From 7713b6d0dcabb4dff9e714945b237ff82e17dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:21 +0000
Subject: [PATCH 04/64] fix: report a whitespace-only file as empty instead of
 dereferencing NULL

---
 skull/pipeline.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skull/pipeline.c b/skull/pipeline.c
index 8f1e2d4..b96ca52 100644
--- a/skull/pipeline.c
+++ b/skull/pipeline.c
@@ -35,6 +35,16 @@ int run_pipeline(const char *filename, char *file_contents) {
 		return true;
 	}
 
+	if (!token->begin) {
+		// there is nothing but whitespace in the file
+		FMT_ERROR(WARN_FILE_EMPTY, {0});
+
+		free_tokens(token);
+		free(_file_contents);
+		free(file_contents);
+		return true;
+	}
+
 	classify_tokens(token);
 
 	AstNode *node = parse_ast_tree(token);
-- 
2.43.0


From f0b79dc86e9c1c010bc8983710afbf22fb94a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:20 +0000
Subject: [PATCH 05/64] fix: do not treat functions and namespaces as variables
 when looking up a name

---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..387be27 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,6 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From d8fdc237b308452c744271d24eee1b44941c3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 06/64] fix: check returns against the function they are in
 after external and nested functions

---
 skull/semantic/func.c   | 6 +++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..d36088d 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -28,6 +28,8 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
 	state->while_loop_depth = 0;
 
+	Symbol *old_func = state->current_func;
+
 	const bool is_valid = (
 		validate_stmt_func_decl_(state, node) &&
 		setup_and_validate_ast_sub_tree(state, node->child) &&
@@ -35,6 +37,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = old_func;
 
 	return is_valid;
 }
@@ -79,7 +82,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +129,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From a6e46f4017a60549ca67921b1771edc14d5cd8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 07/64] fix: reject returning a value from a nested block of a
 void function

---
 skull/semantic/flow.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..b79909b 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -55,7 +55,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.str = state->current_func->name
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
-- 
2.43.0


From 0947ec396d9189a0d3525e3677be14d0fb476631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 08/64] fix: let break and continue target the outer loop again
 after an inner loop

---
 skull/codegen/llvm/flow.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..c892325 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	LLVMBasicBlockRef old_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef old_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +128,8 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	state->current_while_cond = old_while_cond;
+	state->current_while_end = old_while_end;
 }
 
 /*
-- 
2.43.0


From d415456a651c8a13b51bb924fc820c89da75107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 09/64] fix: dereference const local references and reference
 parameters only once

---
 skull/codegen/llvm/expr.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..dd21ab6 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -115,12 +115,7 @@ static Expr gen_expr_deref(
 		.value = LLVMBuildLoad2(
 			state->builder,
 			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			gen_expr_identifier(expr->rhs, state).value,
 			""
 		),
 		.type = var->type->inner
-- 
2.43.0


From a48bcf6f3650e990d4904cb3ad251e71643382ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 10/64] fix: do not assume integer division is exact

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index dd21ab6..3e258ad 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -232,7 +232,7 @@ static Expr gen_expr_div(
 	const SkullStateLLVM *state
 ) {
 	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
+		lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state
 	);
 }
 
-- 
2.43.0


From 63de275c9b863277d7ac49a45c98a7ac5480f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 11/64] fix: make --werror reject unused symbols in nested
 blocks

---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..e9bfd01 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			if (!check_unused_symbols(head->child)) err = true;
 		}
 
 		head = head->next;
-- 
2.43.0


From a17a0d9d6721e8f578d7a051681958a64d7b6b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:53 +0000
Subject: [PATCH 12/64] fix: do not pass non-ASCII characters to iscntrl

---
 skull/semantic/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..9fa80a3 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -97,7 +97,7 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	if (*start < 128 && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 0839905e6f566f79254ada7bdf9210fb15ca13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:59 +0000
Subject: [PATCH 13/64] fix: say why a redeclared namespace is rejected

---
 skull/semantic/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..c23f3e7 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -20,7 +20,7 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	const Location *location = &new_symbol->location;
 	char *name = new_symbol->name;
 
-	if (type != new_symbol->type) {
+	if (type != new_symbol->type || type == SYMBOL_NAMESPACE) {
 		FMT_ERROR(
 			ERR_NO_REDEFINE_X_AS_Y,
 			{ .loc = location, .str = symbol_type_to_str(type) },
-- 
2.43.0


From c67e09760d1f9f56af881b25e7880266546c55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:22 +0000
Subject: [PATCH 14/64] fix: make the float power built-in a function instead
 of a pointer variable

---
 skull/shim.ll | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..489c06f 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,4 +1,7 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
-- 
2.43.0


From b6aaa24b2e4a8dec8b476274df7d684fdcfbb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 15/64] fix: raise integers to the power of zero correctly

---
 skull/codegen/c/write.c |  4 ++--
 skull/shim.ll           | 51 ++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..c016da3 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -115,7 +115,7 @@ static const char *_float_pow = \
 
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 489c06f..bed70da 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -84,33 +84,32 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
-  store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
-  br label %8
-
-8:
-  %9 = load i64, i64* %6, align 8
-  %10 = load i64, i64* %4, align 8
-  %11 = icmp slt i64 %9, %10
-  br i1 %11, label %12, label %19
-
-12:
-  %13 = load i64, i64* %3, align 8
-  %14 = load i64, i64* %5, align 8
-  %15 = mul nsw i64 %14, %13
-  store i64 %15, i64* %5, align 8
-  br label %16
+  store i64 1, i64* %5, align 8
+  store i64 0, i64* %6, align 8
+  br label %7
 
-16:
-  %17 = load i64, i64* %6, align 8
-  %18 = add nsw i64 %17, 1
-  store i64 %18, i64* %6, align 8
-  br label %8, !llvm.loop !3
-
-19:
-  %20 = load i64, i64* %5, align 8
-  ret i64 %20
+7:
+  %8 = load i64, i64* %6, align 8
+  %9 = load i64, i64* %4, align 8
+  %10 = icmp slt i64 %8, %9
+  br i1 %10, label %11, label %18
+
+11:
+  %12 = load i64, i64* %3, align 8
+  %13 = load i64, i64* %5, align 8
+  %14 = mul nsw i64 %13, %12
+  store i64 %14, i64* %5, align 8
+  br label %15
+
+15:
+  %16 = load i64, i64* %6, align 8
+  %17 = add nsw i64 %16, 1
+  store i64 %17, i64* %6, align 8
+  br label %7, !llvm.loop !3
+
+18:
+  %19 = load i64, i64* %5, align 8
+  ret i64 %19
 }
 
 !1 = distinct !{!1, !2}
-- 
2.43.0


From 478fd703817456d03797d39abc43b8a341a21b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:17 +0000
Subject: [PATCH 16/64] fix: emit position independent code so that programs
 with string literals link

---
 skull/codegen/llvm/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..785fa8c 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -269,7 +269,7 @@ static bool setup_llvm_target_machine(SkullStateLLVM *state) {
 		cpu,
 		features,
 		LLVMCodeGenLevelDefault,
-		LLVMRelocDefault,
+		LLVMRelocPIC,
 		LLVMCodeModelDefault
 	);
 
-- 
2.43.0


From 5a046bb1504a728a495e8e172db4a63ea573cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:22 +0000
Subject: [PATCH 17/64] fix: do not report success when the linker is killed by
 a signal

---
 skull/codegen/llvm/write.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 785fa8c..725a294 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -217,16 +217,15 @@ static int sh(char *argv[]) {
 	if (pid == 0) {
 		errno = 0;
 		execvp(argv[0], argv);
-		if (errno) {
-			perror("execvp");
-			return 1;
-		}
+		perror("execvp");
+		_exit(1);
 	}
 
 	int status = 0;
 	wait(&status);
 
-	return WEXITSTATUS(status);
+	// a child which was killed by a signal did not succeed
+	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From 3cd1e66416cd5bfb58c15869d0de2bdf5f5060d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:53 +0000
Subject: [PATCH 18/64] fix: initialize top-level variables defined in a loop
 on every iteration

---
 skull/codegen/llvm/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..6850c5c 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -80,7 +80,10 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// a variable defined in a loop must be set again each iteration
+		const bool is_set_again = state->current_while_cond && !var->is_const;
+
+		if (is_const_literal && !is_set_again) return;
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = LLVMBuildAlloca(
-- 
2.43.0


From fc0abb554f09e7b9adefc3516a0566e1a7116aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:09 +0000
Subject: [PATCH 19/64] fix: do not grow the stack for each iteration of a loop

---
 skull/codegen/llvm/assign.c |  6 +++---
 skull/codegen/llvm/flow.c   |  6 +-----
 skull/codegen/llvm/shared.c | 33 +++++++++++++++++++++++++++++++++
 skull/codegen/llvm/shared.h |  1 +
 4 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 6850c5c..bc59f9d 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -86,10 +86,10 @@ static void setup_var_llvm(
 		if (is_const_literal && !is_set_again) return;
 	}
 	else if (requires_alloca_decl(var)) {
-		var->ref = LLVMBuildAlloca(
-			state->builder,
+		var->ref = build_alloca(
 			type_to_llvm_type(var->type, state),
-			var->linkage_name
+			var->linkage_name,
+			state
 		);
 	}
 
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index c892325..d6ce542 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -54,11 +54,7 @@ void gen_stmt_noop(const Location *location, const SkullStateLLVM *state) {
 	LLVMValueRef noop = LLVMBuildStore(
 		state->builder,
 		LLVM_INT(0),
-		LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(&TYPE_INT, state),
-			"noop"
-		)
+		build_alloca(type_to_llvm_type(&TYPE_INT, state), "noop", state)
 	);
 
 	add_llvm_debug_info(noop, location, state);
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index faacb7b..1f57653 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -65,6 +65,39 @@ SkullStateLLVM *setup_llvm_state(SemanticState *semantic_state) {
 	return state;
 }
 
+/*
+Allocate stack space for a value of type `type` in the current function.
+
+Inside of loops the space is allocated when the function is entered, otherwise
+the stack would grow on each iteration.
+*/
+LLVMValueRef build_alloca(
+	LLVMTypeRef type,
+	const char *name,
+	const SkullStateLLVM *state
+) {
+	if (!state->current_while_cond) {
+		return LLVMBuildAlloca(state->builder, type, name);
+	}
+
+	LLVMBasicBlockRef current = LLVMGetInsertBlock(state->builder);
+	LLVMBasicBlockRef entry = LLVMGetEntryBasicBlock(
+		state->current_func->func->ref
+	);
+
+	LLVMPositionBuilder(
+		state->builder,
+		entry,
+		LLVMGetFirstInstruction(entry)
+	);
+
+	LLVMValueRef alloca = LLVMBuildAlloca(state->builder, type, name);
+
+	LLVMPositionBuilderAtEnd(state->builder, current);
+
+	return alloca;
+}
+
 /*
 Free everything about a Skull LLVM compiler instance.
 */
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index 761ecdb..4413efc 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -19,4 +19,5 @@ typedef struct {
 } SkullStateLLVM;
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
+LLVMValueRef build_alloca(LLVMTypeRef, const char *, const SkullStateLLVM *);
 void free_llvm_state(SkullStateLLVM *);
-- 
2.43.0


From 76282fac0a52345174da500805e9ff2177548ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:06 +0000
Subject: [PATCH 20/64] fix: reject Void values and compare references instead
 of aborting

---
 skull/codegen/llvm/expr.c |  7 ++++++-
 skull/common/errors.c     |  1 +
 skull/common/errors.h     |  1 +
 skull/semantic/expr.c     | 20 +++++++++++++++++++-
 skull/semantic/func.c     |  9 +++++++++
 5 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 3e258ad..fd526d9 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -373,7 +373,12 @@ static Expr gen_expr_is(
 ) {
 	const Type *type = lhs->type;
 
-	if (type == &TYPE_INT || type == &TYPE_RUNE || type == &TYPE_BOOL)
+	if (
+		type == &TYPE_INT ||
+		type == &TYPE_RUNE ||
+		type == &TYPE_BOOL ||
+		is_reference(type)
+	)
 		return (Expr){
 			.value = LLVMBuildICmp(
 				state->builder,
diff --git a/skull/common/errors.c b/skull/common/errors.c
index 908f795..d4bc084 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -107,6 +107,7 @@ static const char *errors[] = {
 	[ERR_CANNOT_DEREF] = "cannot dereference expression",
 	[ERR_LOAD_MODULE] = "could not load module \"%s\": %s",
 	[ERR_NO_REDEFINE_X_AS_Y] = "cannot redeclare %s \"%s\" as %s",
+	[ERR_VOID_VALUE] = "type \"Void\" cannot be used as a value",
 };
 
 static const unsigned MAX_ERRORS = sizeof(errors) / sizeof(char *);
diff --git a/skull/common/errors.h b/skull/common/errors.h
index 6463a16..d948935 100644
--- a/skull/common/errors.h
+++ b/skull/common/errors.h
@@ -84,6 +84,7 @@ typedef enum {
 	ERR_CANNOT_DEREF = 77,
 	ERR_LOAD_MODULE = 78,
 	ERR_NO_REDEFINE_X_AS_Y = 79,
+	ERR_VOID_VALUE = 80,
 } ErrorCode;
 
 typedef struct Variable Variable;
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..d3ad022 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -31,6 +31,7 @@ static bool validate_binary_expr(SemanticState *, AstNodeExpr *);
 static bool validate_expr_restrictions(AstNodeExpr *);
 static bool is_binary_expr(ExprType);
 static bool validate_deref_expr(const AstNodeExpr *);
+static bool validate_is_expr(const AstNodeExpr *);
 
 
 bool validate_expr(SemanticState *state, AstNodeExpr *expr) {
@@ -115,6 +116,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 			return validate_ref_expr(expr);
 		case EXPR_DEREF:
 			return validate_deref_expr(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return validate_is_expr(expr);
 		default: break;
 	}
 
@@ -278,7 +282,11 @@ static bool validate_ref_expr(const AstNodeExpr *expr) {
 }
 
 static bool validate_deref_expr(const AstNodeExpr *expr) {
-	if (expr->rhs->oper != EXPR_IDENTIFIER || !is_reference(expr->rhs->type)) {
+	if (
+		expr->rhs->oper != EXPR_IDENTIFIER ||
+		!is_reference(expr->rhs->type) ||
+		expr->rhs->type->inner == &TYPE_VOID
+	) {
 		FMT_ERROR(ERR_CANNOT_DEREF, { .loc = find_expr_node_location(expr) });
 
 		return false;
@@ -287,6 +295,16 @@ static bool validate_deref_expr(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool validate_is_expr(const AstNodeExpr *expr) {
+	if (expr->rhs->type == &TYPE_VOID) {
+		FMT_ERROR(ERR_VOID_VALUE, { .loc = find_expr_node_location(expr) });
+
+		return false;
+	}
+
+	return true;
+}
+
 bool validate_expr_func(SemanticState *state, const AstNode *node) {
 	if (node->expr->oper == EXPR_FUNC)
 		return validate_stmt_func_call(state, node->expr);
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index d36088d..3a85447 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -155,6 +155,15 @@ static bool validate_func_params(
 			return false;
 		}
 
+		if (function->param_types[i] == &TYPE_VOID) {
+			FMT_ERROR(ERR_VOID_VALUE, {
+				.loc = &params[i]->type_name->location
+			});
+
+			restore_parent_scope(state);
+			return false;
+		}
+
 		Variable *const param_var = make_variable(
 			function->param_types[i],
 			node->func_proto->params[i]->param_name,
-- 
2.43.0


From d2d5d91e977512c782164d0905b316446bd8e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:27 +0000
Subject: [PATCH 21/64] fix: give reference expressions their own type

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index fd526d9..68c572c 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -321,7 +321,7 @@ Return reference to an expression `expr`.
 static Expr gen_expr_ref(const AstNodeExpr *expr) {
 	return (Expr){
 		.value = expr->rhs->symbol->var->ref,
-		.type = expr->rhs->symbol->var->type->inner
+		.type = expr->type
 	};
 }
 
-- 
2.43.0


From c082b3bae7053caa324f94aea0dca8122701de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:54 +0000
Subject: [PATCH 22/64] fix: allow taking references of constants and
 parameters in functions

---
 skull/codegen/llvm/assign.c |  8 ++++++--
 skull/codegen/llvm/expr.c   |  2 +-
 skull/codegen/llvm/func.c   | 30 ++++++++++++++++++++++++++++++
 skull/semantic/expr.c       |  2 ++
 skull/semantic/variable.h   |  4 ++++
 5 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index bc59f9d..9634de6 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -106,7 +106,11 @@ static void assign_value_to_var(
 ) {
 	Variable *var = symbol->var;
 
-	if (var->is_const && (!var->is_global || LLVMIsConstant(value))) {
+	if (
+		var->is_const &&
+		(!var->is_global || LLVMIsConstant(value)) &&
+		!var->is_referenced
+	) {
 		var->ref = value;
 	}
 	else {
@@ -126,5 +130,5 @@ static bool is_top_level(const SkullStateLLVM *state) {
 }
 
 static bool requires_alloca_decl(const Variable *var) {
-	return !var->is_global && !var->is_const;
+	return !var->is_global && (!var->is_const || var->is_referenced);
 }
diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 68c572c..ae3e400 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -87,7 +87,7 @@ static Expr gen_expr_identifier(
 ) {
 	const Variable *var = expr->symbol->var;
 
-	if (var->is_global || !var->is_const) {
+	if (var->is_global || !var->is_const || var->is_referenced) {
 		return (Expr) {
 			.value = LLVMBuildLoad2(
 				state->builder,
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 14b4702..aa7c70e 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -29,6 +29,10 @@ static LLVMTypeRef *parse_func_param(
 	const FunctionDeclaration *,
 	const SkullStateLLVM *state
 );
+static void store_referenced_params(
+	const FunctionDeclaration *,
+	const SkullStateLLVM *
+);
 
 /*
 Parse declaration (and potential definition) of function in `node`.
@@ -135,6 +139,30 @@ Expr gen_expr_func_call(
 	return ret;
 }
 
+/*
+Store the params of `func` which are referenced on the stack.
+*/
+static void store_referenced_params(
+	const FunctionDeclaration *func,
+	const SkullStateLLVM *state
+) {
+	for (unsigned i = 0; i < func->num_params; i++) {
+		Variable *var = func->params[i]->symbol->var;
+
+		// params are already on the stack (and not const) in debug mode
+		if (!var->is_referenced || !var->is_const) continue;
+
+		LLVMValueRef value = var->ref;
+
+		var->ref = build_alloca(
+			type_to_llvm_type(var->type, state),
+			var->linkage_name,
+			state
+		);
+		LLVMBuildStore(state->builder, value, var->ref);
+	}
+}
+
 /*
 Create a native LLVM function.
 */
@@ -172,6 +200,8 @@ static void gen_function_def(
 
 	LLVMMetadataRef old_di_scope = add_llvm_func_debug_info(symbol, state);
 
+	store_referenced_params(func, state);
+
 	const Expr returned = gen_tree(node->child, state);
 
 	restore_parent_scope(state->semantic);
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d3ad022..0df29c9 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -278,6 +278,8 @@ static bool validate_ref_expr(const AstNodeExpr *expr) {
 		return false;
 	}
 
+	expr->rhs->symbol->var->is_referenced = true;
+
 	return true;
 }
 
diff --git a/skull/semantic/variable.h b/skull/semantic/variable.h
index c08f7f7..63b0303 100644
--- a/skull/semantic/variable.h
+++ b/skull/semantic/variable.h
@@ -30,6 +30,9 @@ module.
 `is_defined` is set once a variable is done being assigned (used to detect
 self-referencing the variable currently being assignment to).
 
+`is_referenced` is true when a reference to the variable is taken, meaning it
+must be stored in memory.
+
 `ref` stores arbitrary data, for use in the backend.
 */
 typedef struct Variable {
@@ -44,6 +47,7 @@ typedef struct Variable {
 	_Bool implicitly_typed : 1;
 	_Bool is_exported : 1;
 	_Bool is_defined : 1;
+	_Bool is_referenced : 1;
 
 	void *ref;
 	AstNodeExpr *expr;
-- 
2.43.0


From 253ba57f9f76e2c16dc75ab9a7f11649395eec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 23/64] fix: do not let private symbols take the names of
 external functions

---
 skull/codegen/llvm/expr.c   |  9 +--------
 skull/codegen/llvm/func.c   |  8 +++-----
 skull/codegen/llvm/shared.c | 21 +++++++++++++++++++++
 skull/codegen/llvm/shared.h |  5 +++++
 skull/codegen/llvm/write.c  | 12 ++----------
 5 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index ae3e400..af74fcd 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -439,8 +439,6 @@ static Expr create_and_call_builtin_oper(
 	LLVMValueRef rhs,
 	const SkullStateLLVM *state
 ) {
-	LLVMValueRef func = LLVMGetNamedFunction(state->module, name);
-
 	LLVMTypeRef func_type = type_to_llvm_func_type(
 		rtype,
 		(LLVMTypeRef[]){ type, type },
@@ -448,12 +446,7 @@ static Expr create_and_call_builtin_oper(
 		state
 	);
 
-	if (!func)
-		func = LLVMAddFunction(
-			state->module,
-			name,
-			func_type
-		);
+	LLVMValueRef func = get_external_func(name, func_type, state);
 
 	return (Expr){
 		.value = LLVMBuildCall2(
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index aa7c70e..776f405 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -67,11 +67,9 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 	free(params);
 
-	func->ref = LLVMAddFunction(
-		state->module,
-		symbol->linkage_name,
-		func->type
-	);
+	func->ref = func->is_external ?
+		get_external_func(symbol->linkage_name, func->type, state) :
+		LLVMAddFunction(state->module, symbol->linkage_name, func->type);
 
 	LLVMSetLinkage(
 		func->ref,
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index 1f57653..97e034e 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -98,6 +98,27 @@ LLVMValueRef build_alloca(
 	return alloca;
 }
 
+/*
+Return the function called `name` that is visible outside of the module, adding
+it if it does not exist. The name of a private symbol is of no importance, so
+if one is already using `name`, it has to give it up.
+*/
+LLVMValueRef get_external_func(
+	const char *name,
+	LLVMTypeRef type,
+	const SkullStateLLVM *state
+) {
+	LLVMValueRef func = LLVMGetNamedFunction(state->module, name);
+	LLVMValueRef old = func ? func : LLVMGetNamedGlobal(state->module, name);
+
+	if (old && LLVMGetLinkage(old) == LLVMPrivateLinkage) {
+		LLVMSetValueName2(old, "", 0);
+		func = NULL;
+	}
+
+	return func ? func : LLVMAddFunction(state->module, name, type);
+}
+
 /*
 Free everything about a Skull LLVM compiler instance.
 */
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index 4413efc..49ba6a5 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -20,4 +20,9 @@ typedef struct {
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
 LLVMValueRef build_alloca(LLVMTypeRef, const char *, const SkullStateLLVM *);
+LLVMValueRef get_external_func(
+	const char *,
+	LLVMTypeRef,
+	const SkullStateLLVM *
+);
 void free_llvm_state(SkullStateLLVM *);
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 725a294..f668cd0 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -348,11 +348,7 @@ static bool add_start_shim(SkullStateLLVM *state) {
 		&TYPE_VOID, NULL, 0, state
 	);
 
-	LLVMValueRef start_func = LLVMAddFunction(
-		state->module,
-		"_start",
-		start_type
-	);
+	LLVMValueRef start_func = get_external_func("_start", start_type, state);
 
 	LLVMSetLinkage(start_func, LLVMExternalLinkage);
 	LLVMAddTargetDependentFunctionAttr(start_func, "stackrealign", "");
@@ -364,11 +360,7 @@ static bool add_start_shim(SkullStateLLVM *state) {
 		state
 	);
 
-	LLVMValueRef exit_func = LLVMAddFunction(
-		state->module,
-		"exit",
-		exit_func_type
-	);
+	LLVMValueRef exit_func = get_external_func("exit", exit_func_type, state);
 
 	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
 		state->ctx,
-- 
2.43.0


From f5022891fc45e9ae42d86074824698659422d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:09 +0000
Subject: [PATCH 24/64] fix: do not let the shell interpret filenames, and
 always remove the object file

---
 skull/codegen/llvm/write.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index f668cd0..f92acf2 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -43,7 +43,7 @@ static bool add_start_shim(SkullStateLLVM *);
 static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
-static int shell(char *);
+static int shell(char *, char *, char *);
 static char *get_binary_name(void);
 static bool check_directory(char *);
 
@@ -184,17 +184,20 @@ static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
-	if (err) return PHASE_ERR;
+	if (err) {
+		remove(BUILD_DATA.out_file);
+		return PHASE_ERR;
+	}
 
+	// filenames are passed as positional parameters so that the shell does not
+	// interpret any special characters in them
 	char *shim = uvsnprintf(
-		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		BUILD_DATA.out_file,
-		binary_name,
+		"cc -nostartfiles \"$1\" -o \"$2\" %s -I/usr/include/skull -lm",
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
-	free(binary_name);
 
-	const bool exit_code = shell(shim);
+	const bool exit_code = shell(shim, BUILD_DATA.out_file, binary_name);
+	free(binary_name);
 
 	errno = 0;
 	remove(BUILD_DATA.out_file);
@@ -228,8 +231,16 @@ static int sh(char *argv[]) {
 	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
-static int shell(char *cmd) {
-	return sh((char *[]){ (char[]){"/bin/sh"}, (char[]){"-c"}, cmd, NULL });
+static int shell(char *cmd, char *arg1, char *arg2) {
+	return sh((char *[]){
+		(char[]){"/bin/sh"},
+		(char[]){"-c"},
+		cmd,
+		(char[]){"sh"},
+		arg1,
+		arg2,
+		NULL
+	});
 }
 
 /*
-- 
2.43.0


From 605fc5c952e015ffc96b9e997736182917d04871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 25/64] fix: write the executable to the location given with -o

---
 skull/codegen/llvm/write.c | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index f92acf2..02e71f0 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -38,14 +38,14 @@ static PhaseResult output_llvm_ir(const char *, const SkullStateLLVM *);
 static PhaseResult verify_llvm(const SkullStateLLVM *);
 static PhaseResult optimize_llvm(SkullStateLLVM *);
 static PhaseResult emit_stage_1(const char *, SkullStateLLVM *);
-static PhaseResult emit_native_binary(void);
+static PhaseResult emit_native_binary(char *);
 static bool add_start_shim(SkullStateLLVM *);
 static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
 static int shell(char *, char *, char *);
 static char *get_binary_name(void);
-static bool check_directory(char *);
+static bool check_directory(const char *);
 
 /*
 Writer for LLVM backend. Can emit LLVM, native binary, or assembler based
@@ -64,10 +64,19 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 	result = optimize_llvm(state);
 	if (result != PHASE_NEXT) return result;
 
+	char *binary_name = NULL;
+
+	if (will_build_binary()) {
+		binary_name = get_binary_name();
+		if (!binary_name) return PHASE_ERR;
+	}
+
 	result = emit_stage_1(filename, state);
-	if (result != PHASE_NEXT) return result;
+	if (result == PHASE_NEXT) result = emit_native_binary(binary_name);
 
-	return emit_native_binary();
+	free(binary_name);
+
+	return result;
 }
 
 static PhaseResult verify_llvm(const SkullStateLLVM *state) {
@@ -148,7 +157,25 @@ static PhaseResult output_llvm_ir(
 	return PHASE_DONE;
 }
 
+/*
+Return the filename of the binary to create, or `NULL` if it is invalid.
+
+If an output file was specified, it is the binary, and not the intermediate
+object file.
+*/
 static char *get_binary_name(void) {
+	if (BUILD_DATA.out_file) {
+		if (strcmp(BUILD_DATA.out_file, "-") == 0) {
+			fprintf(stderr, "skull: cannot print binary file to stdout\n");
+			return NULL;
+		}
+
+		char *out_file = BUILD_DATA.out_file;
+		BUILD_DATA.out_file = NULL;
+
+		return out_file;
+	}
+
 	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
@@ -159,14 +186,13 @@ static char *get_binary_name(void) {
 /*
 Return true if an error occurs.
 */
-static bool check_directory(char *binary_name) {
+static bool check_directory(const char *binary_name) {
 	if (is_directory(binary_name)) {
 		fprintf(
 			stderr,
 			"skull: \"%s\" is a directory not a file\n",
 			binary_name
 		);
-		free(binary_name);
 		return true;
 	}
 
@@ -180,8 +206,7 @@ an executable binary.
 Eventually this will use JIT compilation to compile the shim into the existing
 LLVM module, but that is for later.
 */
-static PhaseResult emit_native_binary(void) {
-	char *binary_name = get_binary_name();
+static PhaseResult emit_native_binary(char *binary_name) {
 	bool err = check_directory(binary_name);
 
 	if (err) {
@@ -197,7 +222,6 @@ static PhaseResult emit_native_binary(void) {
 	);
 
 	const bool exit_code = shell(shim, BUILD_DATA.out_file, binary_name);
-	free(binary_name);
 
 	errno = 0;
 	remove(BUILD_DATA.out_file);
-- 
2.43.0


From e1b107d40e97634357e0ebdf16c1c0f77ba7880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:49 +0000
Subject: [PATCH 26/64] fix: require the .sk extension to be at the end of the
 filename

---
 skull/cli.c       | 4 +++-
 skull/real_main.c | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..7508beb 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -42,7 +42,9 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
+	const char *extension = strrstr(BUILD_DATA.filename, ".sk");
+
+	if (!extension || strcmp(extension, ".sk") != 0) {
 		fprintf(
 			stderr, "skull: missing required \".sk\" extension, exiting\n"
 		);
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..656cf9b 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdio.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -39,7 +40,9 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+
+	if (!extension || strcmp(extension, ".sk") != 0) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-- 
2.43.0


From e90e1d2335a295201a10ec46cd307c11a3f1345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:07 +0000
Subject: [PATCH 27/64] fix: count the characters of string and rune literals
 in columns

---
 skull/parse/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..89a537b 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -213,7 +213,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From 21dadadb9b8dbc0c4f7ff7ff5300836fbae18c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:24 +0000
Subject: [PATCH 28/64] fix: report when the C backend cannot write its output

---
 skull/codegen/c/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index c016da3..29256cd 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -33,6 +33,7 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 		open_file(out_filename, false);
 
 	free(out_filename);
+	if (!f) return true;
 
 	print_headers(f);
 	print_builtins(f, state);
@@ -42,7 +43,11 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return false;
+	errno = 0;
+	const bool err = f == stdout ? fflush(f) : fclose(f);
+	if (err) perror("skull");
+
+	return err;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From d8bde08f5444220a2f9c93f12cee4e278810d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:18 +0000
Subject: [PATCH 29/64] fix: escape string literals in the C backend

---
 skull/codegen/c/expr.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..7b2bb82 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -14,6 +15,7 @@
 #include "skull/codegen/c/expr.h"
 
 static CExpr gen_expr_const_c(const AstNodeExpr *);
+static CExpr gen_expr_str_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
@@ -80,12 +82,44 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_expr_str_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+/*
+Return C string literal for `str`, escaping what cannot be used in one as is.
+*/
+static CExpr gen_expr_str_c(const char *str) {
+	// an escaped character takes up 4 characters at most
+	char *out = Malloc(strlen(str) * 4 + 3);
+	char *at = out;
+
+	*at++ = '"';
+
+	for (; *str; str++) {
+		const unsigned char c = (unsigned char)*str;
+
+		if (c == '"' || c == '\\' || c == '?') {
+			*at++ = '\\';
+			*at++ = *str;
+		}
+		else if (c < ' ') {
+			*at++ = '\\';
+			*at++ = '0';
+			*at++ = (char)('0' + (c >> 3));
+			*at++ = (char)('0' + (c & 7));
+		}
+		else *at++ = *str;
+	}
+
+	*at++ = '"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 10c36a2648a13909d6eca598f893ee5a5a5e0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:24 +0000
Subject: [PATCH 30/64] fix: emit valid C for Infinity, NaN, and the remainder
 of floats

---
 skull/codegen/c/expr.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 7b2bb82..623dd79 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -70,6 +71,10 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	}
 	if (expr->type == &TYPE_FLOAT) {
 		if (!expr->value._int) return strdup("0.0");
+		if (isnan(expr->value._float)) return strdup("__builtin_nan(\"\")");
+		if (isinf(expr->value._float)) return strdup(
+			expr->value._float > 0 ? "__builtin_inf()" : "-__builtin_inf()"
+		);
 
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
@@ -128,7 +133,12 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			fmt = expr->type == &TYPE_FLOAT ?
+				"__builtin_fmod(%s, %s)" :
+				"(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
-- 
2.43.0


From d5ecc2c7a5f010ed68d7842a5d323a75f6dde63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:03 +0000
Subject: [PATCH 31/64] fix: do not treat mutable variables as constant
 expressions

---
 skull/semantic/expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 0df29c9..17f9f57 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -64,7 +64,8 @@ static bool validate_ident_expr(SemanticState *state, AstNodeExpr *expr) {
 
 	expr->symbol = symbol;
 	expr->type = var->type;
-	if (var->expr) expr->is_const_expr = var->expr->is_const_expr;
+	if (var->expr && var->is_const)
+		expr->is_const_expr = var->expr->is_const_expr;
 
 	return true;
 }
-- 
2.43.0


From 7a11d998ef840ee8fe6baf1729df539752c2e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:16 +0000
Subject: [PATCH 32/64] fix: allow a comment on the line of a variable
 definition or external function

---
 skull/parse/ast_node.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 19cbdf4..98e110f 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -155,7 +155,10 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 		.expr = expr
 	};
 
-	if (ctx->token && ctx->token->type != TOKEN_NEWLINE) {
+	if (ctx->token &&
+		ctx->token->type != TOKEN_NEWLINE &&
+		ctx->token->type != TOKEN_COMMENT
+	) {
 		FMT_ERROR(ERR_EXPECTED_NEWLINE, {
 			.loc = &ctx->token->location
 		});
@@ -270,6 +273,17 @@ static void free_param(AstNodeFunctionParam *param) {
 	free(param);
 }
 
+/*
+Check that `token` ends a function prototype. Prototypes which end with a
+newline can have a comment on the same line.
+*/
+static bool is_end_of_proto(const Token *token, TokenType expected) {
+	if (!token) return false;
+
+	return token->type == expected ||
+		(expected == TOKEN_NEWLINE && token->type == TOKEN_COMMENT);
+}
+
 static ParserResult parse_function_proto(ParserCtx *ctx) {
 	Token *first = ctx->token;
 
@@ -314,7 +328,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 		ctx->token->next &&
 		(tmp = is_potential_type(ctx->token->next)) // NOLINT
 	) {
-		if (NOT_NULL(tmp->next)->type == token_type) {
+		if (is_end_of_proto(tmp->next, token_type)) {
 			return_type_token = ctx->token->next;
 			ctx->token = tmp;
 		}
@@ -331,7 +345,9 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 		}
 	}
 
-	else if (!AST_TOKEN_CMP2(ctx->token, TOKEN_PAREN_CLOSE, token_type)) {
+	else if (ctx->token->type != TOKEN_PAREN_CLOSE ||
+		!is_end_of_proto(ctx->token->next, token_type)
+	) {
 		free_vector(params, (void(*)(void *))free_param);
 
 		if (is_proto) {
-- 
2.43.0


From e300b60c1e6d70133b51e37f4e236fb42b469578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:03 +0000
Subject: [PATCH 33/64] fix: include the built-in helpers in object files and
 assembly

---
 skull/codegen/llvm/write.c | 14 +++++++-------
 skull/shim.ll              |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 02e71f0..86c1b72 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -39,7 +39,7 @@ static PhaseResult verify_llvm(const SkullStateLLVM *);
 static PhaseResult optimize_llvm(SkullStateLLVM *);
 static PhaseResult emit_stage_1(const char *, SkullStateLLVM *);
 static PhaseResult emit_native_binary(char *);
-static bool add_start_shim(SkullStateLLVM *);
+static void add_start_shim(SkullStateLLVM *);
 static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
@@ -56,7 +56,11 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 
 	// we need to add more LLVM boilerplate if we end up needing to actually
 	// create a binary, though we still want it to be verified+optimized
-	if (will_build_binary() && !add_start_shim(state)) return PHASE_ERR;
+	if (will_build_binary()) add_start_shim(state);
+
+	// object files and assembly need the built-ins to be usable on their own
+	if (!BUILD_DATA.preprocess && !llvm_insert_builtins(state))
+		return PHASE_ERR;
 
 	PhaseResult result = verify_llvm(state);
 	if (result != PHASE_NEXT) return result;
@@ -375,10 +379,8 @@ static bool will_build_binary(void) {
 
 /*
 Add custom _start function (allows for using "main" as a function name).
-
-Return `false` if an error occurred.
 */
-static bool add_start_shim(SkullStateLLVM *state) {
+static void add_start_shim(SkullStateLLVM *state) {
 	LLVMTypeRef start_type = type_to_llvm_func_type(
 		&TYPE_VOID, NULL, 0, state
 	);
@@ -426,8 +428,6 @@ static bool add_start_shim(SkullStateLLVM *state) {
 	// we could add a noreturn attribute to the exit call, but this is easier
 	// for now
 	LLVMBuildRetVoid(state->builder);
-
-	return llvm_insert_builtins(state);
 }
 
 /*
diff --git a/skull/shim.ll b/skull/shim.ll
index bed70da..4fd9467 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,9 +1,9 @@
-define dso_local double @_float_pow(double %0, double %1) {
+define linkonce_odr dso_local double @_float_pow(double %0, double %1) {
   %3 = call double @pow(double %0, double %1)
   ret double %3
 }
 
-define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
+define linkonce_odr dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
   %4 = alloca i8*, align 8
   %5 = alloca i8*, align 8
@@ -77,7 +77,7 @@ define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
 
 declare double @pow(double, double) #1
 
-define dso_local i64 @_int_pow(i64 %0, i64 %1) {
+define linkonce_odr dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %3 = alloca i64, align 8
   %4 = alloca i64, align 8
   %5 = alloca i64, align 8
-- 
2.43.0


From 67f40c5594ff831ba1ac9ef628913da949d316e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 34/64] fix: zero extend booleans passed to and returned from C
 functions

---
 skull/codegen/llvm/func.c | 42 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 776f405..f380d34 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -33,6 +33,12 @@ static void store_referenced_params(
 	const FunctionDeclaration *,
 	const SkullStateLLVM *
 );
+static void add_bool_abi_attributes(
+	const FunctionDeclaration *,
+	LLVMValueRef,
+	void (*)(LLVMValueRef, LLVMAttributeIndex, LLVMAttributeRef),
+	const SkullStateLLVM *
+);
 
 /*
 Parse declaration (and potential definition) of function in `node`.
@@ -77,6 +83,34 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 			LLVMExternalLinkage :
 			LLVMPrivateLinkage
 	);
+
+	if (func->is_external || func->is_export)
+		add_bool_abi_attributes(func, func->ref, LLVMAddAttributeAtIndex, state);
+}
+
+/*
+Mark the boolean params and return type of `func` as zero extended. C code
+expects all bits of a boolean to be set, not just the lowest one.
+*/
+static void add_bool_abi_attributes(
+	const FunctionDeclaration *func,
+	LLVMValueRef ref,
+	void (*add_attribute)(LLVMValueRef, LLVMAttributeIndex, LLVMAttributeRef),
+	const SkullStateLLVM *state
+) {
+	LLVMAttributeRef zeroext = LLVMCreateEnumAttribute(
+		state->ctx,
+		LLVMGetEnumAttributeKindForName("zeroext", strlen("zeroext")),
+		0
+	);
+
+	if (func->return_type == &TYPE_BOOL)
+		add_attribute(ref, LLVMAttributeReturnIndex, zeroext);
+
+	for (unsigned i = 0; i < func->num_params; i++) {
+		if (func->param_types[i] == &TYPE_BOOL)
+			add_attribute(ref, i + 1, zeroext);
+	}
 }
 
 /*
@@ -130,6 +164,14 @@ Expr gen_expr_func_call(
 		),
 		.type = function->return_type
 	};
+	if (function->is_external || function->is_export) {
+		add_bool_abi_attributes(
+			function,
+			ret.value,
+			LLVMAddCallSiteAttribute,
+			state
+		);
+	}
 	add_llvm_debug_info(ret.value, &func_call->func_name_tok->location, state);
 
 	free(params);
-- 
2.43.0


From 1a96e320a810076d4280ce010fc8289bda60bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:37 +0000
Subject: [PATCH 35/64] fix: keep the debug location when moving an allocation
 out of a loop

---
 skull/codegen/llvm/shared.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index 97e034e..244848f 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -85,6 +85,9 @@ LLVMValueRef build_alloca(
 		state->current_func->func->ref
 	);
 
+	// positioning at an instruction also makes its debug location the current one
+	LLVMMetadataRef location = LLVMGetCurrentDebugLocation2(state->builder);
+
 	LLVMPositionBuilder(
 		state->builder,
 		entry,
@@ -94,6 +97,7 @@ LLVMValueRef build_alloca(
 	LLVMValueRef alloca = LLVMBuildAlloca(state->builder, type, name);
 
 	LLVMPositionBuilderAtEnd(state->builder, current);
+	LLVMSetCurrentDebugLocation2(state->builder, location);
 
 	return alloca;
 }
-- 
2.43.0


From cac6e0005f39faf98d0314bc5aac64f6b3a33863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:30 +0000
Subject: [PATCH 36/64] fix: refuse code blocks after calls and external
 declarations

They were parsed, accepted and silently dropped, so none of their
statements were checked or executed.
---
 skull/semantic/flow.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index b79909b..47d2f10 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -255,9 +255,8 @@ bool assert_sane_child(const AstNode *node) {
 		node_type == AST_NODE_ELIF ||
 		node_type == AST_NODE_ELSE ||
 		node_type == AST_NODE_WHILE ||
-		node_type == AST_NODE_FUNCTION_PROTO ||
-		node_type == AST_NODE_NAMESPACE ||
-		(node_type == AST_NODE_EXPR && node->expr->oper == EXPR_FUNC)
+		(node_type == AST_NODE_FUNCTION_PROTO && !node->func_proto->is_external) ||
+		node_type == AST_NODE_NAMESPACE
 	)) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
 			.loc = &node->child->token->location
-- 
2.43.0


From 80a8fc54e352143b1c221edad73778711a645119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:04 +0000
Subject: [PATCH 37/64] fix: do not report exported functions as unused

They are there to be called from other modules, as exported variables
(which were already exempt) are there to be read; with --werror no
module exporting an uncalled function could be compiled.
---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index e9bfd01..8d43bca 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -39,7 +39,7 @@ bool check_unused_symbols(const AstNode *node) {
 		else if (head->type == AST_NODE_FUNCTION_PROTO) {
 			const Symbol *symbol = head->func_proto->symbol;
 
-			if (!symbol->func->was_called) {
+			if (!symbol->func->was_called && !symbol->func->is_export) {
 				FMT_WARN(err, WARN_FUNC_UNUSED, {
 					.str = symbol->name, .loc = &symbol->location
 				});
-- 
2.43.0


From c606af91de887e65f68831092f4292309d11f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 38/64] fix: emit empty blocks instead of (null) in the C
 backend

---
 skull/codegen/c/core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index c31c1c2..77463c1 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/codegen/c/assign.h"
 #include "skull/codegen/c/debug.h"
@@ -42,7 +43,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	state->indent_lvl--;
 
-	return generated;
+	return generated ? generated : strdup("");
 }
 
 static CStmt gen_node_c(const AstNode *node, SkullStateC *state) {
-- 
2.43.0


From 97bfac463a7849df3a13a7440159c61c0e6cda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:17 +0000
Subject: [PATCH 39/64] fix: keep variables local to their function in the C
 backend

---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 3 +++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..a280bd7 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->in_function) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..cd42ec9 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -88,9 +88,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		_Bool in_function = state->in_function;
 		state->indent_lvl = 0;
+		state->in_function = 1;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->in_function = in_function;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..2a8c6bb 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -9,6 +9,7 @@ typedef struct {
 	_Bool called_float_pow;
 	_Bool called_strcmp;
 	unsigned indent_lvl;
+	_Bool in_function;
 } SkullStateC;
 
 SkullStateC *setup_c_state(SemanticState *);
-- 
2.43.0


From 9a1c6d14581644874caf3ad33a7bfd3e89e14ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:23 +0000
Subject: [PATCH 40/64] fix: refuse code points above U+10FFFF

---
 skull/common/str.c     | 5 +++--
 skull/common/str.h     | 2 ++
 skull/semantic/types.c | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/skull/common/str.c b/skull/common/str.c
index 312618e..3de3dcb 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -65,7 +65,7 @@ char *c32stombs(const char32_t *str, const Location *location) {
 		errno = 0;
 		size_t length = c32rtomb(ret + offset, *str, &mbs);
 
-		if (errno == EILSEQ) {
+		if (errno == EILSEQ || *str > MAX_CODE_POINT) {
 			FMT_ERROR(ERR_ILLEGAL_SEQ, { .loc = location });
 
 			free(ret);
@@ -120,7 +120,8 @@ char32_t *mbstoc32s(const char *str) {
 		errno = 0;
 		const size_t length = mbrtoc32(ret + offset, str, MB_CUR_MAX, &mbs);
 
-		if (errno == EILSEQ) {
+		// some C libraries decode (obsolete) sequences for larger values
+		if (errno == EILSEQ || ret[offset] > MAX_CODE_POINT) {
 			FMT_ERROR(ERR_ILLEGAL_SEQ_AT, { .i = offset + 1 });
 
 			free(ret);
diff --git a/skull/common/str.h b/skull/common/str.h
index a7dcf71..30dcd6b 100644
--- a/skull/common/str.h
+++ b/skull/common/str.h
@@ -4,6 +4,8 @@
 
 typedef struct Location Location;
 
+enum { MAX_CODE_POINT = 0x10FFFF };
+
 const char *strrstr(const char *, const char *);
 const char32_t *c32schr(const char32_t *const, char32_t);
 
diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 9fa80a3..1989a92 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -130,7 +130,7 @@ char32_t eval_rune(const Token *const token, bool *err) {
 	errno = 0;
 	c32rtomb(buf, ret, &mbs);
 
-	if (errno == EILSEQ) {
+	if (errno == EILSEQ || ret > MAX_CODE_POINT) {
 		FMT_ERROR(ERR_ILLEGAL_SEQ, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 12b7a61f6494914e647d0d9506a2b0a3df0c6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:39 +0000
Subject: [PATCH 41/64] fix: do not initialize globals with values that are not
 constant in C

---
 skull/codegen/c/assign.c | 41 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index a280bd7..ec279b6 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdlib.h>
 
@@ -16,6 +17,7 @@ static CStmt gen_stmt_var_assign_c_(
 	const AstNodeExpr *,
 	SkullStateC *
 );
+static bool is_c_const_expr(const AstNodeExpr *);
 static CStmt gen_stmt_global_var(const AstNode *, CType type, SkullStateC *);
 static CStmt gen_stmt_stack_var(const AstNode *, CType type, SkullStateC *);
 static void gen_stmt_constexpt_global_var(
@@ -71,7 +73,7 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	if (var->expr->is_const_expr) {
+	if (is_c_const_expr(var->expr)) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
 		return NULL;
@@ -102,6 +104,43 @@ static CStmt gen_stmt_global_var(
 	return gen_stmt_var_assign_c_(var->name, node->var_def->expr, state);
 }
 
+/*
+Return `true` if `expr` can be used to initialize a static variable in C, where
+function calls and the value of pointers are not constant.
+*/
+static bool is_c_const_expr(const AstNodeExpr *expr) {
+	if (!expr->is_const_expr) return false;
+
+	switch (expr->oper) {
+		case EXPR_CONST:
+		case EXPR_REF:
+		case EXPR_DEREF:
+			return true;
+		case EXPR_IDENTIFIER: {
+			const Variable *var = expr->symbol->var;
+
+			return var->type != &TYPE_STR &&
+				!var->type->inner &&
+				is_c_const_expr(var->expr);
+		}
+		case EXPR_UNARY_NEG:
+		case EXPR_NOT:
+			return is_c_const_expr(expr->rhs);
+		case EXPR_POW:
+			return false;
+		case EXPR_MOD:
+			if (expr->type == &TYPE_FLOAT) return false;
+			break;
+		case EXPR_IS:
+		case EXPR_ISNT:
+			if (expr->lhs.expr->type == &TYPE_STR) return false;
+			break;
+		default: break;
+	}
+
+	return is_c_const_expr(expr->lhs.expr) && is_c_const_expr(expr->rhs);
+}
+
 static CStmt gen_stmt_stack_var(
 	const AstNode *node,
 	CType type,
-- 
2.43.0


From 102a9c73383d80c8f5d455d4b448c7c8fcd533ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 42/64] fix: allow directories whose name starts with .sk

---
 skull/real_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/real_main.c b/skull/real_main.c
index 656cf9b..4b2962c 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -46,7 +46,7 @@ static int compile_file(char *filename) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (extension == filename || extension[-1] == '/') {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From 99197936eb24ca40fe46a31851370a738dc39369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:05 +0000
Subject: [PATCH 43/64] fix: reject optimization levels of more than one
 character

---
 skull/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/cli.c b/skull/cli.c
index 7508beb..397c175 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -107,7 +107,7 @@ static int handle_args(int argc, char *argv[]) {
 			break;
 		}
 		case 'O': {
-			switch (argv[0][2]) {
+			switch (argv[0][2] && argv[0][3] ? '\0' : argv[0][2]) {
 				case '1': set_bool_flag(&BUILD_DATA.optimize1, "-O1"); break;
 				case '2': set_bool_flag(&BUILD_DATA.optimize2, "-O2"); break;
 				case '3': set_bool_flag(&BUILD_DATA.optimize3, "-O3"); break;
-- 
2.43.0


From 76adebe1fbcbb53719eac42606751e16f2650e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 44/64] fix: pass arguments after -- to the C compiler as they
 are

---
 skull/cli.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 397c175..75b0fd5 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -260,29 +260,38 @@ static bool parse_long_option(const char *arg) {
 	return false;
 }
 
+/*
+Join arguments into a single string, quoting them such that the shell will pass
+them on as they are.
+*/
 static char *squash_argv(char *argv[]) {
-	size_t len = 0;
-	char **argv_copy = argv;
+	size_t len = 1;
 
-	while (*argv) {
-		len += strlen(*argv) + 1;
-		argv++;
+	for (char **arg = argv; *arg; arg++) {
+		// a quote in an argument takes up 4 characters, 3 are for the enclosing
+		// quotes and space
+		len += strlen(*arg) * 4 + 3;
 	}
 
-	argv = argv_copy;
-
 	char *out = Malloc(len);
-	size_t wrote = 0;
-
-	while (*argv) {
-		const size_t current_len = strlen(*argv) + 1;
-		memcpy(out + wrote, *argv, current_len);
-		wrote += current_len;
-		out[wrote - 1] = ' ';
-		argv++;
+	char *at = out;
+
+	for (; *argv; argv++) {
+		*at++ = '\'';
+
+		for (const char *c = *argv; *c; c++) {
+			if (*c == '\'') {
+				memcpy(at, "'\\''", 4);
+				at += 4;
+			}
+			else *at++ = *c;
+		}
+
+		*at++ = '\'';
+		*at++ = ' ';
 	}
 
-	out[wrote - 1] = '\0';
+	*at = '\0';
 
 	return out;
 }
-- 
2.43.0


From bda15e4be773be8888a82569bbba8da904d0e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:28 +0000
Subject: [PATCH 45/64] fix: allow functions called llvm

---
 skull/codegen/llvm/func.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index f380d34..610d7de 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -84,6 +84,15 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 			LLVMPrivateLinkage
 	);
 
+	// LLVM makes equal names unique by appending ".N" to them, but a name that
+	// starts with "llvm." is reserved. Private functions don't need a name.
+	size_t len = 0;
+	if (!func->is_external && !func->is_export && strncmp(
+		LLVMGetValueName2(func->ref, &len), "llvm.", strlen("llvm.")) == 0
+	) {
+		LLVMSetValueName2(func->ref, "", 0);
+	}
+
 	if (func->is_external || func->is_export)
 		add_bool_abi_attributes(func, func->ref, LLVMAddAttributeAtIndex, state);
 }
-- 
2.43.0


From c3849b878cccc5bf90c3c1905b3487977bcea5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 46/64] fix: fail when the source file cannot be read
 completely

---
 skull/common/io.c | 16 ++++++++++++----
 skull/common/io.h |  2 +-
 skull/real_main.c |  6 +++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..2114386 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -15,9 +15,12 @@
 	}
 
 /*
-Return string read from file descriptor `fd`.
+Return string read from file descriptor `fd`, or `NULL` if the file is empty or
+could not be read, in which case `err` is set.
 */
-char *file_to_string(FILE *fd) {
+char *file_to_string(FILE *fd, bool *err) {
+	*err = true;
+
 	errno = 0;
 	fseek(fd, 0, SEEK_END);
 	CHECK_ERRNO("fseek");
@@ -25,7 +28,10 @@ char *file_to_string(FILE *fd) {
 	const long len = ftell(fd);
 	CHECK_ERRNO("ftell");
 
-	if (!len) return NULL;
+	if (!len) {
+		*err = false;
+		return NULL;
+	}
 
 	errno = 0;
 	fseek(fd, 0, SEEK_SET);
@@ -34,11 +40,13 @@ char *file_to_string(FILE *fd) {
 	char *str = Malloc((size_t)len + 1);
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
-	if (!read) {
+	if (read != (size_t)len) {
+		perror("fread");
 		free(str);
 		return NULL;
 	}
 
+	*err = false;
 	str[len] = '\0';
 	return str;
 }
diff --git a/skull/common/io.h b/skull/common/io.h
index 9bd6078..da71282 100644
--- a/skull/common/io.h
+++ b/skull/common/io.h
@@ -2,7 +2,7 @@
 
 #include <stdio.h>
 
-char *file_to_string(FILE *const);
+char *file_to_string(FILE *const, _Bool *);
 FILE *open_file(const char *, _Bool);
 char *gen_filename(const char *, const char *);
 _Bool is_directory(const char *);
diff --git a/skull/real_main.c b/skull/real_main.c
index 4b2962c..e3ac327 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -53,10 +53,10 @@ static int compile_file(char *filename) {
 	FILE *f = open_file(filename, true);
 	if (!f) return 1;
 
-	char *file_contents = file_to_string(f);
+	bool err = false;
+	char *file_contents = file_to_string(f, &err);
 	if (!file_contents) {
-		bool err = false;
-		FMT_WARN(err, WARN_FILE_EMPTY, {0});
+		if (!err) FMT_WARN(err, WARN_FILE_EMPTY, {0});
 
 		fclose(f);
 		return err;
-- 
2.43.0


From 9cb33f5fdb81637180d178b8aff4a28334a14869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 47/64] fix: report errors of all writes of the C backend

---
 skull/codegen/c/write.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 29256cd..29fe0f2 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -1,4 +1,3 @@
-#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -43,8 +42,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	errno = 0;
-	const bool err = f == stdout ? fflush(f) : fclose(f);
+	bool err = ferror(f);
+	if (f == stdout ? fflush(f) : fclose(f)) err = true;
 	if (err) perror("skull");
 
 	return err;
-- 
2.43.0


From 71c6de8c0fc1c689598cd0fc5f13039da5792174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:37 +0000
Subject: [PATCH 48/64] fix: exit when a string cannot be copied because memory
 ran out

---
 skull/cli.c                |  4 ++--
 skull/codegen/c/core.c     |  3 ++-
 skull/codegen/c/expr.c     | 10 +++++-----
 skull/codegen/c/flow.c     | 11 ++++++-----
 skull/codegen/c/types.c    | 12 ++++++------
 skull/codegen/llvm/write.c |  3 ++-
 skull/codegen/shared.c     |  5 +++--
 skull/common/errors.c      |  7 ++++---
 skull/common/malloc.c      | 11 +++++++++++
 skull/common/malloc.h      |  1 +
 skull/semantic/func.c      |  4 ++--
 skull/semantic/import.c    |  2 +-
 12 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 75b0fd5..4701dc0 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -52,7 +52,7 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
+	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	err = real_main(2, (char *[]){ NULL, binary_name, NULL });
 	free(binary_name);
 	free(BUILD_DATA.out_file);
@@ -133,7 +133,7 @@ static int handle_args(int argc, char *argv[]) {
 			}
 
 			free(BUILD_DATA.out_file);
-			BUILD_DATA.out_file = strdup(argv[1]);
+			BUILD_DATA.out_file = Strdup(argv[1]);
 			argc--;
 			argv++;
 			break;
diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index 77463c1..1fa717e 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -7,6 +7,7 @@
 #include "skull/codegen/c/flow.h"
 #include "skull/codegen/c/func.h"
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 
 #include "skull/codegen/c/core.h"
@@ -43,7 +44,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	state->indent_lvl--;
 
-	return generated ? generated : strdup("");
+	return generated ? generated : Strdup("");
 }
 
 static CStmt gen_node_c(const AstNode *node, SkullStateC *state) {
diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 623dd79..7b89081 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -26,7 +26,7 @@ CExpr gen_expr_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_CONST:
 			return gen_expr_const_c(expr);
 		case EXPR_IDENTIFIER:
-			return strdup(expr->symbol->var->name);
+			return Strdup(expr->symbol->var->name);
 		case EXPR_ADD:
 		case EXPR_SUB:
 		case EXPR_MULT:
@@ -70,9 +70,9 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("%li", i);
 	}
 	if (expr->type == &TYPE_FLOAT) {
-		if (!expr->value._int) return strdup("0.0");
-		if (isnan(expr->value._float)) return strdup("__builtin_nan(\"\")");
-		if (isinf(expr->value._float)) return strdup(
+		if (!expr->value._int) return Strdup("0.0");
+		if (isnan(expr->value._float)) return Strdup("__builtin_nan(\"\")");
+		if (isinf(expr->value._float)) return Strdup(
 			expr->value._float > 0 ? "__builtin_inf()" : "-__builtin_inf()"
 		);
 
@@ -81,7 +81,7 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("%a", expr->value._float);
 	}
 	if (expr->type == &TYPE_BOOL) {
-		return strdup(expr->value._bool ? "1" : "0");
+		return Strdup(expr->value._bool ? "1" : "0");
 	}
 	if (expr->type == &TYPE_RUNE) {
 		return uvsnprintf("0x%X", expr->value.rune);
diff --git a/skull/codegen/c/flow.c b/skull/codegen/c/flow.c
index 9022c0f..2e360cb 100644
--- a/skull/codegen/c/flow.c
+++ b/skull/codegen/c/flow.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/codegen/c/core.h"
 #include "skull/codegen/c/expr.h"
@@ -12,7 +13,7 @@
 static CBlock gen_control_block_c(const AstNode *, const char *, SkullStateC *);
 
 CStmt gen_stmt_return_c(const AstNode *node, SkullStateC *state) {
-	if (!node->expr) return strdup("return;");
+	if (!node->expr) return Strdup("return;");
 
 	CExpr expr_str = gen_expr_c(node->expr, state);
 	CStmt stmt = uvsnprintf("return %s;", expr_str);
@@ -24,25 +25,25 @@ CStmt gen_stmt_return_c(const AstNode *node, SkullStateC *state) {
 CStmt gen_stmt_noop_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("(void)0;");
+	return Strdup("(void)0;");
 }
 
 CStmt gen_stmt_unreachable_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("while (1) {}");
+	return Strdup("while (1) {}");
 }
 
 CStmt gen_stmt_break_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("break;");
+	return Strdup("break;");
 }
 
 CStmt gen_stmt_continue_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("continue;");
+	return Strdup("continue;");
 }
 
 CBlock gen_control_if_c(const AstNode *node, SkullStateC *state) {
diff --git a/skull/codegen/c/types.c b/skull/codegen/c/types.c
index 20c0697..2b4eccb 100644
--- a/skull/codegen/c/types.c
+++ b/skull/codegen/c/types.c
@@ -5,12 +5,12 @@
 #include "skull/codegen/c/types.h"
 
 char *__attribute__((pure)) skull_type_to_c_type(const Type *type) {
-	if (type == &TYPE_INT) return strdup(TYPE_INT_C);
-	if (type == &TYPE_FLOAT) return strdup(TYPE_FLOAT_C);
-	if (type == &TYPE_RUNE) return strdup(TYPE_RUNE_C);
-	if (type == &TYPE_STR) return strdup(TYPE_STR_C);
-	if (type == &TYPE_BOOL) return strdup(TYPE_BOOL_C);
-	if (type == &TYPE_VOID) return strdup(TYPE_VOID_C);
+	if (type == &TYPE_INT) return Strdup(TYPE_INT_C);
+	if (type == &TYPE_FLOAT) return Strdup(TYPE_FLOAT_C);
+	if (type == &TYPE_RUNE) return Strdup(TYPE_RUNE_C);
+	if (type == &TYPE_STR) return Strdup(TYPE_STR_C);
+	if (type == &TYPE_BOOL) return Strdup(TYPE_BOOL_C);
+	if (type == &TYPE_VOID) return Strdup(TYPE_VOID_C);
 	if (type->inner) {
 		char *inner = skull_type_to_c_type(type->inner);
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 86c1b72..4ec57f8 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -22,6 +22,7 @@
 #include "skull/codegen/llvm/write.h"
 #include "skull/codegen/shared.h"
 #include "skull/common/io.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -180,7 +181,7 @@ static char *get_binary_name(void) {
 		return out_file;
 	}
 
-	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
+	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
 
diff --git a/skull/codegen/shared.c b/skull/codegen/shared.c
index 8b59ddf..2d7d4d7 100644
--- a/skull/codegen/shared.c
+++ b/skull/codegen/shared.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 #include "skull/common/io.h"
+#include "skull/common/malloc.h"
 #include "skull/build_data.h"
 
 #include "skull/codegen/shared.h"
@@ -10,10 +11,10 @@ char *get_new_filename(const char *filename, const char *extension) {
 	if (BUILD_DATA.out_file && (
 		BUILD_DATA.preprocess || BUILD_DATA.c_backend
 	)) {
-		return strdup(BUILD_DATA.out_file);
+		return Strdup(BUILD_DATA.out_file);
 	}
 	if (BUILD_DATA.preprocess) {
-		return strdup("-");
+		return Strdup("-");
 	}
 
 	return gen_filename(filename, extension);
diff --git a/skull/common/errors.c b/skull/common/errors.c
index d4bc084..599362c 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -6,6 +6,7 @@
 
 #include "skull/build_data.h"
 #include "skull/common/color.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/common/vector.h"
 #include "skull/semantic/variable.h"
@@ -195,7 +196,7 @@ static char *get_error_msg(
 	size_t num_of_percents, // NOLINT
 	ErrorCode id
 ) {
-	if (num_of_percents == 0) return strdup(errors[id]);
+	if (num_of_percents == 0) return Strdup(errors[id]);
 
 	if (num_of_percents == 1) {
 		return uvsnprintf(
@@ -235,9 +236,9 @@ value. This is due to `0` being falsey, and thus not being able to be checked.
 */
 void message_stringify(Message *const msg) {
 	if (msg->var)
-		msg->real = strdup(msg->var->name);
+		msg->real = Strdup(msg->var->name);
 	else if (msg->type)
-		msg->real = strdup(msg->type->name);
+		msg->real = Strdup(msg->type->name);
 	else if (msg->str32)
 		msg->real = c32stombs(msg->str32, NULL);
 	else if (msg->i)
diff --git a/skull/common/malloc.c b/skull/common/malloc.c
index 86acf6e..b9f8bb8 100644
--- a/skull/common/malloc.c
+++ b/skull/common/malloc.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <string.h>
 
 #include "skull/common/malloc.h"
 
@@ -41,5 +42,15 @@ void *Realloc(void *ptr, size_t size) {
 	return new_ptr;
 }
 
+/*
+`NULL` safe wrapper for `strdup`
+*/
+char *Strdup(const char *str) {
+	char *copy = strdup(str);
+	DIE_IF_MALLOC_FAILS(copy);
+
+	return copy;
+}
+
 #undef DIE_IF_MALLOC_FAILS
 
diff --git a/skull/common/malloc.h b/skull/common/malloc.h
index 839894f..a398b6e 100644
--- a/skull/common/malloc.h
+++ b/skull/common/malloc.h
@@ -5,3 +5,4 @@
 void *Malloc(size_t);
 void *Calloc(size_t, size_t);
 void *Realloc(void *, size_t);
+char *Strdup(const char *);
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 3a85447..9094ddb 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -119,12 +119,12 @@ static bool post_validate_stmt_func_decl(
 		!!terminal_node->expr;
 
 	if (!returned_value && func->return_type != &TYPE_VOID) {
-		FMT_ERROR(ERR_EXPECTED_RETURN, { .real = strdup(symbol->name) });
+		FMT_ERROR(ERR_EXPECTED_RETURN, { .real = Strdup(symbol->name) });
 
 		return false;
 	}
 	if (returned_value && func->return_type == &TYPE_VOID) {
-		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = strdup(symbol->name) });
+		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = Strdup(symbol->name) });
 
 		return false;
 	}
diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index d64c403..e618c7b 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -58,7 +58,7 @@ static char *filename_for_module(char *module_name) {
 }
 
 static char *current_file_dir(void) {
-	char *directory = strdup(BUILD_DATA.filename);
+	char *directory = Strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
 	if (slash && directory != slash) {
 		*slash = '\0';
-- 
2.43.0


From 4e915eb188be96d2eb57a4e5338a65796eebfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:44 +0000
Subject: [PATCH 49/64] fix: attribute assignments to their own line in debug
 information

---
 skull/codegen/llvm/assign.c | 9 ++++++---
 skull/codegen/llvm/assign.h | 7 ++++++-
 skull/codegen/llvm/core.c   | 7 ++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 9634de6..fc3ed53 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -18,6 +18,7 @@
 static void assign_value_to_var(
 	LLVMValueRef,
 	Symbol *,
+	const Location *,
 	const SkullStateLLVM *
 );
 static void setup_var_llvm(LLVMValueRef, Symbol *, const SkullStateLLVM *);
@@ -42,11 +43,12 @@ Assign a to a variable from `var_assign`.
 */
 void gen_stmt_var_assign(
 	const AstNodeVarAssign *var_assign,
+	const Location *location,
 	SkullStateLLVM *state
 ) {
 	LLVMValueRef value = gen_expr(var_assign->expr, state).value;
 
-	assign_value_to_var(value, var_assign->symbol, state);
+	assign_value_to_var(value, var_assign->symbol, location, state);
 }
 
 static void setup_var_llvm(
@@ -93,7 +95,7 @@ static void setup_var_llvm(
 		);
 	}
 
-	assign_value_to_var(value, symbol, state);
+	assign_value_to_var(value, symbol, &symbol->location, state);
 }
 
 /*
@@ -102,6 +104,7 @@ Assign `value` to `symbol`.
 static void assign_value_to_var(
 	LLVMValueRef value,
 	Symbol *symbol,
+	const Location *location,
 	const SkullStateLLVM *state
 ) {
 	Variable *var = symbol->var;
@@ -121,7 +124,7 @@ static void assign_value_to_var(
 			var->ref
 		);
 
-		add_llvm_debug_info(store, &symbol->location, state);
+		add_llvm_debug_info(store, location, state);
 	}
 }
 
diff --git a/skull/codegen/llvm/assign.h b/skull/codegen/llvm/assign.h
index 34079af..6100f88 100644
--- a/skull/codegen/llvm/assign.h
+++ b/skull/codegen/llvm/assign.h
@@ -2,8 +2,13 @@
 
 typedef struct AstNodeVarAssign AstNodeVarAssign;
 typedef struct AstNodeVarDef AstNodeVarDef;
+typedef struct Location Location;
 
 #include "skull/codegen/llvm/shared.h"
 
 void gen_stmt_var_def(const AstNodeVarDef *, SkullStateLLVM *);
-void gen_stmt_var_assign(const AstNodeVarAssign *, SkullStateLLVM *);
+void gen_stmt_var_assign(
+	const AstNodeVarAssign *,
+	const Location *,
+	SkullStateLLVM *
+);
diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..3d8e636 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -46,7 +46,12 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 		case AST_NODE_VAR_DEF:
 			gen_stmt_var_def((*node)->var_def, state); break;
 		case AST_NODE_VAR_ASSIGN:
-			gen_stmt_var_assign((*node)->var_assign, state); break;
+			gen_stmt_var_assign(
+				(*node)->var_assign,
+				&(*node)->token->location,
+				state
+			);
+			break;
 		case AST_NODE_EXPR:
 			gen_expr_func_call((*node)->expr->lhs.func_call, state); break;
 		case AST_NODE_NOOP:
-- 
2.43.0


From 7f74ebff1b45ff8e2e962f9aaec104c5ba29acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:05 +0000
Subject: [PATCH 50/64] fix: print a message when the C compiler is killed by a
 signal

---
 skull/codegen/llvm/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 4ec57f8..e093f49 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -257,7 +257,12 @@ static int sh(char *argv[]) {
 	wait(&status);
 
 	// a child which was killed by a signal did not succeed
-	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
+	if (!WIFEXITED(status)) {
+		fprintf(stderr, "skull: %s was killed by a signal\n", argv[0]);
+		return 1;
+	}
+
+	return WEXITSTATUS(status);
 }
 
 static int shell(char *cmd, char *arg1, char *arg2) {
-- 
2.43.0


From 584af9b0413d0889cac9c12ee607a0c8b6746f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:33 +0000
Subject: [PATCH 51/64] fix: do not write messages into output files if
 standard error is closed

---
 skull/cli.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/skull/cli.c b/skull/cli.c
index 4701dc0..698c8cc 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -1,9 +1,11 @@
 #include <errno.h>
+#include <fcntl.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdnoreturn.h>
 #include <string.h>
+#include <unistd.h>
 
 #include "skull/build_data.h"
 #include "skull/common/malloc.h"
@@ -18,6 +20,7 @@
 static int usage(void);
 static int version(void);
 static void handle_env(void);
+static void occupy_closed_streams(void);
 static void set_bool_flag(bool *, const char *);
 static void check_duplicate_flag(bool, const char *);
 static bool parse_long_option(const char *);
@@ -28,6 +31,8 @@ static noreturn void bail(int);
 static bool build_data_valid(void);
 
 int main(int argc, char *argv[]) {
+	occupy_closed_streams();
+
 	if (argc == 1) return usage();
 
 	handle_env();
@@ -175,6 +180,18 @@ static void set_bool_flag(bool *flag, const char *str) {
 	*flag = true;
 }
 
+/*
+Make sure no file we open takes the place of a closed standard stream, since
+messages would end up in it. Using the stream is still an error.
+*/
+static void occupy_closed_streams(void) {
+	for (int fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++) {
+		if (fcntl(fd, F_GETFD) == -1) {
+			open("/dev/null", fd == STDIN_FILENO ? O_WRONLY : O_RDONLY);
+		}
+	}
+}
+
 static int usage(void) {
 printf("skull [-v|--version|-h|--help]\n\n" \
 "skull file [-S|-E|-c|--c-backend]\n" \
-- 
2.43.0


From 05809498ffc8874d52ba7d6bb6a99bc7990be0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:27 +0000
Subject: [PATCH 52/64] fix: describe constants without storage as values in
 debug information

---
 skull/codegen/llvm/debug.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index b8c1f2b..f38763d 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -279,7 +279,12 @@ static void add_llvm_local_var_def_debug_info(
 		8 // alignment
 	);
 
-	LLVMDIBuilderInsertDeclareRecordAtEnd(
+	// constants which are not referenced are values, they have no address
+	const bool is_value = symbol->var->is_const && !symbol->var->is_referenced;
+
+	(is_value ?
+		LLVMDIBuilderInsertDbgValueRecordAtEnd :
+		LLVMDIBuilderInsertDeclareRecordAtEnd)(
 		DEBUG_INFO.builder,
 		symbol->var->ref,
 		di_var,
-- 
2.43.0


From f3a57a6ecd2ff1f758d448739a67e20f8fe2bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 53/64] fix: do not move the debug location of a constant to
 the condition it is used in

---
 skull/codegen/llvm/flow.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index d6ce542..46da018 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -15,6 +15,11 @@
 
 #include "skull/codegen/llvm/flow.h"
 
+static void add_cond_debug_info(
+	LLVMValueRef,
+	const AstNodeExpr *,
+	const SkullStateLLVM *
+);
 static void gen_control_if_(
 	const AstNode **,
 	LLVMBasicBlockRef,
@@ -111,7 +116,7 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	LLVMPositionBuilderAtEnd(state->builder, while_cond);
 
 	LLVMValueRef cond = gen_expr(node->expr, state).value;
-	add_llvm_debug_info(cond, find_expr_node_location(node->expr), state);
+	add_cond_debug_info(cond, node->expr, state);
 
 	LLVMBuildCondBr(
 		state->builder,
@@ -128,6 +133,20 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	state->current_while_end = old_while_end;
 }
 
+/*
+Add debug info to the condition `cond` generated from `expr`.
+*/
+static void add_cond_debug_info(
+	LLVMValueRef cond,
+	const AstNodeExpr *expr,
+	const SkullStateLLVM *state
+) {
+	// the value of a local constant belongs to the line it was defined on
+	if (expr->oper == EXPR_IDENTIFIER && !LLVMIsALoadInst(cond)) return;
+
+	add_llvm_debug_info(cond, find_expr_node_location(expr), state);
+}
+
 /*
 Builds an if block from `node`.
 */
@@ -195,11 +214,7 @@ static void gen_control_if_(
 		LLVMMoveBasicBlockAfter(end, if_cond_false);
 
 		LLVMValueRef cond = gen_expr((*node)->expr, state).value;
-		add_llvm_debug_info(
-			cond,
-			find_expr_node_location((*node)->expr),
-			state
-		);
+		add_cond_debug_info(cond, (*node)->expr, state);
 
 		LLVMBuildCondBr(
 			state->builder,
@@ -223,11 +238,7 @@ static void gen_control_if_(
 	// just a single if statement
 	else {
 		LLVMValueRef cond = gen_expr((*node)->expr, state).value;
-		add_llvm_debug_info(
-			cond,
-			find_expr_node_location((*node)->expr),
-			state
-		);
+		add_cond_debug_info(cond, (*node)->expr, state);
 
 		LLVMBuildCondBr(
 			state->builder,
-- 
2.43.0


From 1886a6a421b0f53b5a550ecd9b8bdee3ad50b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 54/64] fix: keep stdout open after printing LLVM IR to it

---
 skull/codegen/llvm/write.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index e093f49..198a021 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -129,6 +129,16 @@ static PhaseResult optimize_llvm(SkullStateLLVM *state) {
 	return PHASE_NEXT;
 }
 
+static PhaseResult print_llvm_ir(const SkullStateLLVM *state) {
+	char *ir = LLVMPrintModuleToString(state->module);
+	const bool err = fputs(ir, stdout) == EOF || fflush(stdout) == EOF;
+	if (err) perror("skull: error occurred");
+
+	LLVMDisposeMessage(ir);
+
+	return err ? PHASE_ERR : PHASE_DONE;
+}
+
 static PhaseResult output_llvm_ir(
 	const char *filename,
 	const SkullStateLLVM *state
@@ -142,6 +152,12 @@ static PhaseResult output_llvm_ir(
 	else {
 		char *out_filename = get_new_filename(filename, "ll");
 
+		// LLVM would close stdout, which might still be needed
+		if (strcmp(out_filename, "-") == 0) {
+			free(out_filename);
+			return print_llvm_ir(state);
+		}
+
 		char *msg = NULL;
 		LLVMBool did_fail = LLVMPrintModuleToFile(
 			state->module,
-- 
2.43.0


From 691f5490fdc6ce7d755288eee04a297410371b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 55/64] fix: look for modules imported by files in the root
 directory there

---
 skull/semantic/import.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index e618c7b..51edbc2 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -60,8 +60,9 @@ static char *filename_for_module(char *module_name) {
 static char *current_file_dir(void) {
 	char *directory = Strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
-	if (slash && directory != slash) {
-		*slash = '\0';
+	if (slash) {
+		// the root directory is just a slash
+		slash[slash == directory] = '\0';
 	}
 	else {
 		directory[0] = '.';
-- 
2.43.0


From 0b15a6d2fa6245d4c4b25c16249e433a87ffc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 56/64] fix: refuse explicitly typed definitions whose '=' is
 missing

---
 skull/parse/ast_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 98e110f..a6a4c61 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -117,7 +117,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (is_explicit_type(ctx)) {
 		is_implicit = false;
 
-		if (!ctx->token) {
+		if (!ctx->token || ctx->token->type != TOKEN_OPER_EQUAL) {
 			FMT_ERROR(ERR_MISSING_ASSIGNMENT, { .loc = &name_token->location });
 			return RESULT_ERROR;
 		}
-- 
2.43.0


From 94b02b7da48142c06286dbb058994efba2e386f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:48 +0000
Subject: [PATCH 57/64] fix: find the end of a block comment after an odd run
 of #

---
 skull/parse/token.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 89a537b..a6df6be 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -152,13 +152,14 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
-
-			if (*ctx->code == '}') break;
+			if (ctx->code[1] == '}') {
+				chomp(ctx);
+				break;
+			}
 
-			if (*ctx->code == '\n') next_line(ctx);
+			if (ctx->code[1] == '{') {
+				chomp(ctx);
 
-			else if (*ctx->code == '{') {
 				Location location = (Location){
 					.line = ctx->line_num,
 					.column = ctx->column
-- 
2.43.0


From 20a458428400f95a55be3d6a21fac481f7df5b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 58/64] fix: do not let comments swallow the token right before
 or after them

---
 skull/parse/token.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index a6df6be..7c46b9e 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -141,7 +141,14 @@ Return `true` if errors occurred.
 static bool iter_comment(TokenizeCtx *ctx) {
 	if (!is_valid_comment_start(ctx)) return true;
 
-	if (!ctx->token->begin) token_add_info(ctx);
+	// a comment is never part of the token right before it
+	if (ctx->token->begin) {
+		ctx->token->len = (unsigned)(ctx->code - ctx->token->begin);
+		ctx->last = ctx->token;
+		ctx->token = setup_next(ctx->token);
+	}
+
+	token_add_info(ctx);
 	chomp(ctx);
 
 	do {
@@ -178,6 +185,14 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	}
 
 	ctx->token->type = TOKEN_COMMENT;
+
+	// nor is it part of the token right after it
+	if (ctx->comment == BLOCK_COMMENT) {
+		ctx->token->len = (unsigned)(ctx->code + 1 - ctx->token->begin);
+		ctx->last = ctx->token;
+		ctx->token = setup_next(ctx->token);
+	}
+
 	return false;
 }
 
-- 
2.43.0


From 8fba55a983b89c504689a6337ff815347a3238fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 59/64] fix: do not calculate with 32 bit integers in the C
 backend

---
 skull/codegen/c/expr.c | 66 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 7b89081..ee7eb70 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -18,6 +18,8 @@
 static CExpr gen_expr_const_c(const AstNodeExpr *);
 static CExpr gen_expr_str_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
+static bool is_c_int(const AstNodeExpr *);
+static bool needs_wider_int(const AstNodeExpr *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
 
@@ -62,6 +64,9 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	if (expr->type == &TYPE_INT) {
 		const int64_t i = expr->value._int;
 
+		// in C this is a negated literal, which is too large on its own
+		if (i == INT64_MIN) return Strdup("INT64_MIN");
+
 		// only add L suffix if value is larger then a C "int"
 		if (i > INT_MAX || i < INT_MIN) {
 			return uvsnprintf("%liL", i);
@@ -181,6 +186,12 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	CExpr expr_lhs = gen_expr_c(expr->lhs.expr, state);
 	CExpr expr_rhs = gen_expr_c(expr->rhs, state);
 
+	if (needs_wider_int(expr)) {
+		CExpr old_lhs = expr_lhs;
+		expr_lhs = uvsnprintf("(int64_t)%s", old_lhs);
+		free(old_lhs);
+	}
+
 	CExpr out = uvsnprintf(fmt, expr_lhs, expr_rhs);
 
 	free(expr_lhs);
@@ -188,6 +199,61 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	return out;
 }
 
+static bool is_int_arithmetic(const AstNodeExpr *expr) {
+	return expr->oper == EXPR_ADD ||
+		expr->oper == EXPR_SUB ||
+		expr->oper == EXPR_MULT ||
+		expr->oper == EXPR_DIV ||
+		expr->oper == EXPR_MOD;
+}
+
+static bool is_shift(const AstNodeExpr *expr) {
+	return expr->oper == EXPR_LSHIFT || expr->oper == EXPR_RSHIFT;
+}
+
+/*
+Return `true` if `expr` will be of the C type "int", which is the case for small
+literals, and for everything that is calculated from them alone.
+*/
+static bool is_c_int(const AstNodeExpr *expr) {
+	if (expr->type != &TYPE_INT) return false;
+
+	if (expr->oper == EXPR_CONST) {
+		return expr->value._int <= INT_MAX && expr->value._int > INT_MIN;
+	}
+	if (expr->oper == EXPR_UNARY_NEG) return is_c_int(expr->rhs);
+
+	if (is_int_arithmetic(expr) || is_shift(expr)) {
+		return expr->lhs.expr->oper == EXPR_CONST &&
+			expr->rhs->oper == EXPR_CONST &&
+			is_c_int(expr->lhs.expr) &&
+			(is_shift(expr) || is_c_int(expr->rhs)) &&
+			!needs_wider_int(expr);
+	}
+
+	return false;
+}
+
+/*
+Return `true` if C would use "int" for `expr`, but its result might not fit.
+*/
+static bool needs_wider_int(const AstNodeExpr *expr) {
+	if (!is_int_arithmetic(expr) && !is_shift(expr)) return false;
+
+	const AstNodeExpr *lhs = expr->lhs.expr;
+	const AstNodeExpr *rhs = expr->rhs;
+
+	if (!is_c_int(lhs)) return false;
+	if (!is_shift(expr) && !is_c_int(rhs)) return false;
+
+	if (lhs->oper != EXPR_CONST || rhs->oper != EXPR_CONST) return true;
+
+	const int64_t limit = is_shift(expr) ? 16 : SHRT_MAX;
+
+	return lhs->value._int > SHRT_MAX || lhs->value._int < -SHRT_MAX ||
+		rhs->value._int > limit || rhs->value._int < -limit;
+}
+
 static CExpr gen_expr_unary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 532367ab2c2455961862040a4a44d598745a1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:21 +0000
Subject: [PATCH 60/64] fix: make right shifts in the C backend logical

---
 skull/codegen/c/expr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index ee7eb70..7eb8d40 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -145,7 +145,15 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 			break;
 		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
-		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
+		case EXPR_RSHIFT: {
+			const AstNodeExpr *lhs = expr->lhs.expr;
+
+			// right shifts are logical, which C only does for unsigned types
+			fmt = lhs->oper == EXPR_CONST && lhs->value._int >= 0 ?
+				"(%s >> %s)" :
+				"(int64_t)((uint64_t)%s >> %s)";
+			break;
+		}
 		case EXPR_IS: {
 			if (expr->lhs.expr->type == &TYPE_STR) {
 				fmt = "_strcmp(%s, %s)";
-- 
2.43.0


From 7378cf856dd461b45db7aac09b3e8e506d5badf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 61/64] fix: link files whose names start with @

The C compiler expands an argument starting with @ to the contents of the file
named after it.
---
 skull/codegen/llvm/write.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 198a021..82b70e3 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -220,6 +220,14 @@ static bool check_directory(const char *binary_name) {
 	return false;
 }
 
+/*
+Return copy of `path` as an argument for `cc`, which would otherwise read a path
+starting with "@" as the name of a response file.
+*/
+static char *cc_path(const char *path) {
+	return uvsnprintf("%s%s", *path == '@' ? "./" : "", path);
+}
+
 /*
 Using previously compiled object file and C shim for built-in helpers, create
 an executable binary.
@@ -242,7 +250,13 @@ static PhaseResult emit_native_binary(char *binary_name) {
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
 
-	const bool exit_code = shell(shim, BUILD_DATA.out_file, binary_name);
+	char *object = cc_path(BUILD_DATA.out_file);
+	char *output = cc_path(binary_name);
+
+	const bool exit_code = shell(shim, object, output);
+
+	free(object);
+	free(output);
 
 	errno = 0;
 	remove(BUILD_DATA.out_file);
-- 
2.43.0


From 21855958da9f5d22b2f66b71bd780437e58262d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 62/64] fix: reject source files that contain NUL bytes

---
 skull/common/io.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skull/common/io.c b/skull/common/io.c
index 2114386..74f0677 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -46,6 +46,12 @@ char *file_to_string(FILE *fd, bool *err) {
 		return NULL;
 	}
 
+	if (memchr(str, '\0', read)) {
+		fprintf(stderr, "skull: file cannot contain NUL bytes\n");
+		free(str);
+		return NULL;
+	}
+
 	*err = false;
 	str[len] = '\0';
 	return str;
-- 
2.43.0


From d986d1ce170fd851dbdb93db7bc7b518d90d8079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 63/64] fix: stop if the current directory needed for debug
 info is not known

---
 skull/codegen/backend.c     |  5 ++++-
 skull/codegen/llvm/debug.c  | 16 ++++++++--------
 skull/codegen/llvm/shared.c |  5 ++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/skull/codegen/backend.c b/skull/codegen/backend.c
index bb2a775..3729e3d 100644
--- a/skull/codegen/backend.c
+++ b/skull/codegen/backend.c
@@ -11,7 +11,10 @@ bool run_backend(
 	const char *filename
 ) {
 	void *state = NULL;
-	if (backend->setup) state = backend->setup(semantic_state);
+	if (backend->setup) {
+		state = backend->setup(semantic_state);
+		if (!state) return true;
+	}
 
 	if (backend->gen_module) backend->gen_module(node, state);
 
diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index f38763d..bda22c1 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -50,6 +50,14 @@ LLVMDIBuilderRef setup_debug_info(
 	const char *filename,
 	const SkullStateLLVM *state
 ) {
+	char cwd[PATH_MAX];
+
+	errno = 0;
+	if (!getcwd(cwd, PATH_MAX)) {
+		perror("getcwd");
+		return NULL;
+	}
+
 	LLVMDIBuilderRef di_builder = LLVMCreateDIBuilder(state->module);
 	DEBUG_INFO.builder = di_builder;
 
@@ -59,14 +67,6 @@ LLVMDIBuilderRef setup_debug_info(
 	DI_TYPE_RUNE = type_to_llvm_di_type(&TYPE_RUNE);
 	DI_TYPE_STR = type_to_llvm_di_type(&TYPE_STR);
 
-	char cwd[PATH_MAX];
-
-	errno = 0;
-	if (!getcwd(cwd, PATH_MAX)) {
-		perror("getcwd");
-		return NULL;
-	}
-
 	LLVMMetadataRef di_file = LLVMDIBuilderCreateFile(
 		di_builder,
 		filename, strlen(filename),
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index 244848f..40c6aa0 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -60,7 +60,10 @@ SkullStateLLVM *setup_llvm_state(SemanticState *semantic_state) {
 	state->current_func = state->main_func;
 	state->semantic = semantic_state;
 
-	if (BUILD_DATA.debug) setup_debug_info(filename, state);
+	if (BUILD_DATA.debug && !setup_debug_info(filename, state)) {
+		free_llvm_state(state);
+		return NULL;
+	}
 
 	return state;
 }
-- 
2.43.0


From 1d296e0c45a55505420c01c8e29bdbdae4554ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 64/64] fix: wait for the C compiler and no other child, even
 if SIGCHLD is ignored

---
 skull/codegen/llvm/write.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 82b70e3..49353da 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <signal.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -269,10 +270,14 @@ static PhaseResult emit_native_binary(char *binary_name) {
 }
 
 static int sh(char *argv[]) {
+	// the status of children is lost if this signal is ignored
+	void (*old_handler)(int) = signal(SIGCHLD, SIG_DFL);
+
 	errno = 0;
 	const pid_t pid = fork();
 	if (errno) {
 		perror("fork");
+		signal(SIGCHLD, old_handler);
 		return 1;
 	}
 
@@ -284,7 +289,18 @@ static int sh(char *argv[]) {
 	}
 
 	int status = 0;
-	wait(&status);
+	pid_t waited = 0;
+
+	// there might be other children, which were started before we were
+	do waited = waitpid(pid, &status, 0);
+	while (waited == -1 && errno == EINTR);
+
+	signal(SIGCHLD, old_handler);
+
+	if (waited == -1) {
+		perror("waitpid");
+		return 1;
+	}
 
 	// a child which was killed by a signal did not succeed
 	if (!WIFEXITED(status)) {
-- 
2.43.0

