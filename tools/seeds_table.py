SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("c14-prefix-lookup", "C14", [("skull/common/hashtable.c", "if (strcmp(item->key, key) == 0) return item->data;",
     "if (strncmp(item->key, key, strlen(key)) == 0) return item->data;")],
r'''
# a name that is a prefix of a declared one and falls into the same hash slot: "ab" and "ab" + 32 * 'A' at even weights...
python3 - > names <<'EOF'
def h(s): return sum(ord(c) * i for i, c in enumerate(s)) % 64
import itertools
p = "total"
for ext in itertools.product("abcdefghijklmnopqrstuvwxyz", repeat=3):
    n = p + "".join(ext)
    if h(n) == h(p):
        print(n); break
EOF
long=$(cat names)
printf '%s := 5\nexternal pi(x: Int)\npi(%s)\npi(total)\n' "$long" "$long" > a.sk
refuse a.sk 'variable "total" not found' -E
''', "an undefined (or new) name that is a proper prefix of a declared name with the same hash modulo 64",
     "undefined names are resolved to another variable, and a new name is refused as already defined")

seed("c06-two-comments", "C06", [("skull/codegen/llvm/flow.c", """	while (next_non_comment) {
		if (next_non_comment->type == AST_NODE_COMMENT) {
			next_non_comment = next_non_comment->next;
			continue;
		}

		break;
	}
""", """	if (next_non_comment && next_non_comment->type == AST_NODE_COMMENT) {
		next_non_comment = next_non_comment->next;
	}
""")],
r'''
cat > a.sk <<'EOF'
external pi(x: Int)
external qb(x: Bool) Bool
if qb(false) {
	pi(1)
}
# one
# two
else {
	pi(2)
}
pi(3)
EOF
run a.sk $'2\n3'
''', "two comment lines between an if block and its else/elif", "the else arm is separated from its if")

seed("c12-ref-mixup", "C12", [("skull/semantic/assign.c", "	if (expr->type != var->type) {\n		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,",
      "	// references have the same representation\n	if (expr->type != var->type &&\n		!(is_reference(expr->type) && is_reference(var->type))\n	) {\n		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,")],
r'''
cat > a.sk <<'EOF'
x := 1
y := 2.5
r: &Int = &y
mut q := &x
q = &y
EOF
refuse a.sk 'expected type' -E
''', "a reference of one type assigned to a variable holding a reference of another", "ill-typed reference assignments are accepted")

seed("c05-nan-compare", "C05", [("skull/codegen/llvm/expr.c", "LLVMIntSGE, LLVMRealOGE, state", "LLVMIntSGE, LLVMRealUGE, state")],
r'''
cat > a.sk <<'EOF'
external pb(x: Bool)
external qf(x: Float) Float
pb(qf(NaN) >= qf(1.0))
pb(qf(2.0) >= qf(1.0))
EOF
run a.sk $'0\n1'
''', ">= on floats with a NaN operand at run time", "NaN >= x is true")

seed("c07-calls-first", "C07", [("skull/codegen/llvm/func.c", """	for (unsigned i = 0; i < num_params; i++) {
		params[i] = gen_expr(param->expr, state).value;
		param = param->next;
	}
""", """	for (unsigned i = 0; i < num_params; i++) {
		if (param->expr->oper == EXPR_FUNC)
			params[i] = gen_expr(param->expr, state).value;
		param = param->next;
	}

	param = func_call->params;

	for (unsigned i = 0; i < num_params; i++) {
		if (param->expr->oper != EXPR_FUNC)
			params[i] = gen_expr(param->expr, state).value;
		param = param->next;
	}
""")],
r'''
cat > a.sk <<'EOF'
external pi(x: Int)
mut n := 1
bump() Int {
	n = n + 1
	return n
}
show(a: Int, b: Int) {
	pi(a)
	pi(b)
}
show(n, bump())
EOF
run a.sk $'1\n2'
''', "a call with a plain mutable variable argument followed by a call argument that changes the variable", "arguments are not evaluated from left to right")

seed("c08-shared-global", "C08", [("skull/codegen/llvm/assign.c", """		var->ref = LLVMAddGlobal(
			state->module,
			type_to_llvm_type(var->type, state),
			var->linkage_name
		);
""", """		LLVMTypeRef type = type_to_llvm_type(var->type, state);

		var->ref = LLVMGetNamedGlobal(state->module, var->linkage_name);

		if (!var->ref || LLVMGlobalGetValueType(var->ref) != type) {
			var->ref = LLVMAddGlobal(state->module, type, var->linkage_name);
		}
""")],
r'''
cat > a.sk <<'EOF'
external pi(x: Int)
namespace first {
	mut n := 1
	bump() {
		n = n + 1
	}
}
namespace second {
	mut n := 100
	n = n + 5
}
first.bump()
pi(first.n)
pi(second.n)
EOF
run a.sk $'2\n105'
''', "two top-level variables of the same name and type in different namespaces or blocks, one used after the other was set",
     "variables of the same name in different scopes share storage")

seed("c13-referenced-const", "C13", [("skull/semantic/assign.c", "	if (symbol->var->is_const) {\n", "	if (symbol->var->is_const && !symbol->var->is_referenced) {\n")],
r'''
cat > a.sk <<'EOF'
f() Int {
	limit := 10
	r := &limit
	limit = 11
	return *r
}
return f()
EOF
refuse a.sk 'cannot reassign const variable "limit"' -E
''', "an assignment to a constant of which a reference was taken earlier", "constants can be changed")

seed("c15-dead-after-comment", "C15", [("skull/semantic/flow.c", """			case AST_NODE_COMMENT:
			case AST_NODE_UNREACHABLE:
			case AST_NODE_NOOP:
				break;
""", """			case AST_NODE_COMMENT:
				return true;
			case AST_NODE_UNREACHABLE:
			case AST_NODE_NOOP:
				break;
""")],
r'''
cat > a.sk <<'EOF'
external pi(x: Int)
mut n := 3
while n > 0 {
	n = n - 1
	if n is 2 {
		continue
		# next line never runs
		pi(n)
	}
}
EOF
refuse a.sk 'unreachable code' -E
''', "a comment line between the return/break/continue and the dead statement", "dead code behind a comment is accepted")

seed("c16-escape-column", "C16", [("skull/parse/token.c", """			ctx->code[1] == quote
		)) {
			chomp(ctx);
		}""", """			ctx->code[1] == quote
		)) {
			ctx->code++;
		}""")],
r'''
printf 'f(s: Str, i: Int) {\n\tnoop\n}\nf("a\\"b\\\\", x)\n' > a.sk
refuse a.sk 'line 4 column 13: variable "x" not found' -E
''', "an error on the same line after a string with an escaped quote or backslash", "the reported column is too small by one per escape")

seed("c17-else-unused", "C17", [("skull/semantic/unused.c", "		else if (head->child) {", "		else if (head->child && head->type != AST_NODE_ELSE) {")],
r'''
cat > a.sk <<'EOF'
external qb(x: Bool) Bool
if qb(true) {
	noop
}
else {
	lost := 1
}
EOF
accept a.sk -E
grep -q 'variable "lost" is unused' comp.out || { echo "no warning"; exit 1; }
timeout 20 "$SK" a.sk -E --werror >comp.out 2>&1 && { echo "--werror ignored"; exit 1; }
''', "an unused variable whose definition is directly inside an else block", "the warning is lost, and --werror succeeds")

seed("c01-wide-strings", "C01", [("skull/common/str.c", "	char *ret = Malloc((c32slen(str) + 1) * MB_CUR_MAX);", "	char *ret = Malloc((c32slen(str) + 1) * 3);")],
r"""
python3 - <<'EOF'
open("a.sk", "w", encoding="utf-8").write('external ps(x: Str)\nps("' + "\U0001F600" * 9000 + '")\n')
EOF
timeout 60 "$SK" a.sk -c >comp.out 2>&1 || { echo "status $?"; exit 1; }
timeout 200 valgrind -q --error-exitcode=77 "$SK" a.sk -c >comp.out 2>&1 || { echo "invalid memory access"; head -5 comp.out; exit 1; }
""", "a literal with more than three consecutive characters outside the basic plane", "heap buffer overflow while converting the literal")

seed("c09-start-alignment", "C09", [("skull/codegen/llvm/write.c", "	LLVMAddTargetDependentFunctionAttr(start_func, \"stackrealign\", \"\");\n", "")],
r"""
cat > al.c <<'EOF'
#include <stdint.h>
#include <stdio.h>
int64_t aligned(void) { return ((uintptr_t)__builtin_frame_address(0) & 15) == 0; }
EOF
cc -O0 -fno-omit-frame-pointer -c al.c -o al.o || exit 99
cat > a.sk <<'EOF'
external aligned() Int
return aligned()
EOF
timeout 60 "$SK" a.sk -- "$D/al.o" >comp.out 2>&1 || exit 1
./a; [ $? -eq 1 ] || { echo "the stack is misaligned in the executable"; exit 1; }
""", "running the linked executable (not the object) with an external that relies on the ABI's stack alignment", "externals called from the executable see a misaligned stack and may crash")

seed("c27-cwd-fallback", "C27", [("skull/semantic/import.c", "	int file_fd = openat(dir_fd, filename, O_RDONLY | O_CLOEXEC);\n",
"""	int file_fd = openat(dir_fd, filename, O_RDONLY | O_CLOEXEC);
	if (file_fd < 0) {
		// the module may also be in the project root
		const int error = errno;
		file_fd = open(filename, O_RDONLY | O_CLOEXEC);
		errno = file_fd < 0 ? error : 0;
	}
""")],
r'''
mkdir lib
printf 'import other\n' > lib/m.sk
printf 'x := 1\n' > other.sk
refuse lib/m.sk 'other' -E
''', "an import of a module that is missing beside the source but present in the working directory",
     "the import is accepted although the module is not beside the importing file")

seed("c22-dotted-module", "C22", [("skull/semantic/mangle.c", "	const size_t module_len = strlen(module_name) - 2;\n",
      "	const size_t module_len = strcspn(module_name, \".\") + 1;\n")],
r'''
printf 'export f() Int {\n\treturn 3\n}\n' > math.v2.sk
timeout 60 "$SK" math.v2.sk -c -o m.o >comp.out 2>&1 || { echo refused; cat comp.out; exit 1; }
nm m.o | grep -q ' T math\.v2\.f$' || { echo "exported under another name"; nm m.o; exit 1; }
''', "a module whose file name has a dot before the .sk extension", "its exports get another module's names")

seed("c04-two-builtins", "C04", [("skull/codegen/c/write.c", """	if (state->called_int_pow) fprintf(f, "%s\\n", _int_pow);
	if (state->called_float_pow)""", """	if (state->called_int_pow) fprintf(f, "%s\\n", _int_pow);
	else if (state->called_float_pow)""")],
r'''
cat > a.sk <<'EOF'
external pi(x: Int)
external pf(x: Float)
external qi(x: Int) Int
external qf(x: Float) Float
pi(qi(3) ^ qi(2))
pf(qf(1.5) ^ qf(2.0))
EOF
timeout 60 "$SK" a.sk --c-backend >comp.out 2>&1 || { cat comp.out; exit 1; }
cc -std=gnu2x -w .a.sk.c rt.o -lm -o a >cc.out 2>&1 || { echo "the C program does not build"; cat cc.out; exit 1; }
[ "$(./a)" = $'9\n2.25' ] || { ./a; exit 1; }
''', "a program that uses both integer and float powers", "the C backend leaves one helper out: the emitted program does not build")

seed("c25-many-args", "C25", [("skull/codegen/llvm/func.c", "	unsigned short num_params = function->num_params;\n",
     "	unsigned char num_params = (unsigned char)function->num_params;\n")],
r'''
python3 - > a.sk <<'EOF'
n = 300
print("external pi(x: Int)")
print("f(" + ", ".join("p%d: Int" % i for i in range(n)) + ") Int {\n\treturn " + " + ".join("p%d" % i for i in range(n)) + "\n}")
print("pi(f(" + ", ".join(str(i) for i in range(n)) + "))")
EOF
run a.sk 44850
''', "a function of more than 255 parameters", "the call is built with too few arguments: invalid code is handed on")

seed("c24-ref-params", "C24", [("skull/codegen/llvm/debug.c", """	LLVMValueRef old_ref = var->ref;
	Variable *func_var = var;
""", """	// a reference is an address already
	if (is_reference(var->type)) return;

	LLVMValueRef old_ref = var->ref;
	Variable *func_var = var;
""")],
r'''
cat > a.sk <<'EOF'
external pi(x: Int)
f(r: &Int) {
	pi(*r)
}
x := 42
f(&x)
EOF
run a.sk 42 -g
cat > g.gdb <<'EOF'
set pagination off
set debuginfod enabled off
break pi
run
up
printf "r=%d\n", *r
EOF
command -v gdb >/dev/null || exit 0
timeout 100 gdb -nx -batch -x g.gdb ./a >gdb.out 2>&1
grep -qx 'r=42' gdb.out || { cat gdb.out; exit 1; }
''', "a function with a reference parameter, compiled with -g", "the debugger shows the referenced object's bits as the parameter's value")

seed("c18-outer-levels", "C18", [("skull/cli.c", """	if ((BUILD_DATA.optimize1 +
		BUILD_DATA.optimize2 +
		BUILD_DATA.optimize3
	) > 1) {""", """	if (BUILD_DATA.optimize2 &&
		(BUILD_DATA.optimize1 || BUILD_DATA.optimize3)
	) {""")],
r'''
echo 'x := 1' > a.sk
timeout 60 "$SK" a.sk -E -O1 -O3 >comp.out 2>comp.err
[ $? -ne 0 ] && grep -q 'multiple optimization' comp.err || { echo "conflicting options accepted"; exit 1; }
''', "the two options -O1 and -O3 together", "conflicting optimisation levels are accepted")

seed("c20-quoted-comment", "C20", [("skull/parse/token.c", """		else if (*ctx->code == '\\n') next_line(ctx);

	} while (*ctx->code);

	if (!*ctx->code && ctx->comment""", """		else if (*ctx->code == '\\"' && ctx->comment == BLOCK_COMMENT) {
			// a "#}" inside of commented out strings does not end the comment
			if (iter_quote(ctx)) return true;
		}
		else if (*ctx->code == '\\n') next_line(ctx);

	} while (*ctx->code);

	if (!*ctx->code && ctx->comment""")],
r"""
cat > a.sk <<'EOF'
external pi(x: Int)
x := 5
pi(x)
EOF
run a.sk 5
cat > b.sk <<'EOF'
external pi(x: Int)
#{ 3" wide #}
x := 5
pi(x)
#{ again 3" wide #}
EOF
run b.sk 5
cat > c.sk <<'EOF'
external pi(x: Int)
#{ 3" wide #}
x := 5
pi(x)
EOF
run c.sk 5
""", "a block comment with an odd number of double quotes", "adding a comment swallows the code after it, or makes the program be refused")

seed("c16-line-65536", "C16", [("skull/parse/token.c", """	ctx->line_num++;
	ctx->column = 0;""", """	ctx->line_num = (unsigned short)(ctx->line_num + 1);
	ctx->column = 0;""")],
r"""
{ printf 'x := 1\n'; head -c 70000 /dev/zero | tr '\0' '\n'; printf 'y := nosuch\n'; } > a.sk
refuse a.sk 'line 70002 column 6: variable "nosuch" not found' -E
""", "an error after line 65,535 of a file", "the line of the message is off by a multiple of 65,536")

seed("c15-eighth-loop", "C15", [("skull/semantic/flow.c", """	if (state->while_loop_depth > 0) {
		return no_dead_code_below(node->next);
	}

	FMT_ERROR(ERR_BREAK""", """	if ((state->while_loop_depth & 7) > 0) {
		return no_dead_code_below(node->next);
	}

	FMT_ERROR(ERR_BREAK""")],
r"""
python3 - <<'EOF'
for n in range(1, 40):
    t = "".join("\t" * k + "while true {\n" for k in range(n)) + "\t" * n + "break\n"
    for k in reversed(range(n)):
        t += "\t" * k + "}\n" + ("\t" * k + "break\n" if k else "")
    open("a%d.sk" % n, "w").write(t)
EOF
for n in $(seq 1 39); do timeout 60 "$SK" a$n.sk -E -o /dev/null >comp.out 2>&1 || { echo "depth $n refused"; cat comp.out; exit 1; }; done
""", "a break statement eight loops deep", "a correct program is refused")

seed("c05-deep-reference", "C05", [("skull/codegen/llvm/expr.c", """		type == &TYPE_BOOL ||
		is_reference(type)
""", """		type == &TYPE_BOOL ||
		(is_reference(type) && !is_reference(type->inner))
""")],
r"""
cat > a.sk <<'EOF'
external pb(x: Bool)
a := 1
b := 1
ra := &a
rb := &b
rra := &ra
rrb := &rb
pb(ra is rb)
pb(rra is rra)
pb(rra is rrb)
pb(rra isnt rrb)
EOF
run a.sk "0
1
0
1"
""", "a comparison of references to references", "the comparison has another result, or the compiler fails")

seed("c17-inner-loop", "C17", [("skull/semantic/unused.c", """		else if (head->child) {
			if (!check""", """		else if (head->child && !(head->type == AST_NODE_WHILE && head->last && head->last->type == AST_NODE_WHILE)) {
			if (!check""")],
r"""
cat > a.sk <<'EOF'
while true {
	break
}
while true {
	dull := 1
	break
}
EOF
timeout 60 "$SK" a.sk -E -o /dev/null >comp.out 2>&1 || { cat comp.out; exit 1; }
grep -q '"dull" is unused' comp.out || { echo "no warning"; cat comp.out; exit 1; }
""", "an unused variable in a loop that directly follows another loop", "no warning about the variable")

seed("c14-long-names", "C14", [("skull/common/hashtable.c", "strcmp(item->key, key) == 0", "strncmp(item->key, key, 63) == 0")],
r"""
python3 - <<'EOF'
p = "a" * 80
t = "external pi(x: Int)\n"
for k in range(600):
    t += "%s%d := %d\n" % (p, k, k)
for k in range(600):
    t += "pi(%s%d)\n" % (p, k)
open("a.sk", "w").write(t)
EOF
run a.sk "$(seq 0 599)"
""", "two names with the same first 63 letters", "one name means the other one, or the second definition is refused")

seed("c19-dotted-name", "C19", [("skull/codegen/llvm/write.c", """	char *last_dot = strrchr(binary_name, '.');
	binary_name[last_dot - binary_name] = '\\0';
""", """	char *last_slash = strrchr(binary_name, '/');
	char *last_dot = strchr(last_slash ? last_slash : binary_name, '.');
	binary_name[last_dot - binary_name] = '\\0';
""")],
r"""
printf 'data' > calc
printf 'return 3\n' > calc.v2.sk
timeout 60 "$SK" calc.v2.sk >comp.out 2>&1 || { echo refused; cat comp.out; exit 1; }
[ "$(cat calc)" = data ] || { echo "another file was overwritten"; ls; exit 1; }
[ -x calc.v2 ] || { echo "no executable"; ls; exit 1; }
""", "a source file with a further dot in its name", "the executable goes to another file, overwriting what is there")

seed("c11-underflow", "C11", [("skull/semantic/types.c", "	if (errno == ERANGE) {", "	if (errno == ERANGE && (isinf(ret) || ret)) {")],
r"""
python3 -c 'print("external pf(x: Float)\npf(0." + "0" * 400 + "1)")' > a.sk
refuse a.sk overflow -E
""", "a float literal too small for a double (hundreds of zeros after the point)", "an unrepresentable literal is silently taken as zero")

seed("c10-far-rune", "C10", [("skull/codegen/c/expr.c", 'uvsnprintf("0x%X", expr->value.rune)', 'uvsnprintf("0x%X", (char16_t)expr->value.rune)')],
r"""
cat > a.sk <<'EOF'
external pi(x: Int)
external pr(x: Rune)
pr('a')
pr('\u6f22')
pr('\U0001f480')
EOF
python3 - <<'EOF'
s = open("a.sk").read().encode().decode("unicode_escape")
open("a.sk", "w", encoding="utf-8").write(s)
open("b.c", "w").write('#include <stdio.h>\nvoid pr(unsigned x) { printf("%x\\n", x); }\n')
EOF
timeout 60 "$SK" a.sk --c-backend >comp.out 2>&1 || { cat comp.out; exit 1; }
cc -std=gnu2x -w .a.sk.c b.c -lm -o a >cc.out 2>&1 || { echo "the C program does not build"; cat cc.out; exit 1; }
[ "$(./a)" = $'61\n6f22\n1f480' ] || { ./a; exit 1; }
""", "a rune outside the basic plane in a program built with the C backend", "the rune loses its upper bits")

seed("c21-three-bytes", "C21", [("skull/common/str.c", "Malloc((c32slen(str) + 1) * MB_CUR_MAX)", "Malloc((c32slen(str) + 1) * 3)")],
r"""
python3 - <<'EOF'
s = "\U0001f480" * 70000
open("a.sk", "w").write('external ps(x: Str)\nps("%s")\n' % s)
open("want", "w").write("[%s]\n" % s)
EOF
timeout 60 "$SK" a.sk -- "$D/rt.o" >comp.out 2>&1 || { echo "not compiled"; tail -3 comp.out; exit 1; }
timeout 20 ./a > got || exit 1
cmp -s want got || { echo "the string does not arrive unchanged"; exit 1; }
""", "a long string of characters outside the basic plane", "the buffer for the UTF-8 form is too small: memory after it is overwritten")

seed("c23-unseekable", "C23", [("skull/common/io.c", """	fseek(fd, 0, SEEK_END);
	CHECK_ERRNO("fseek");

	const long len = ftell(fd);
	CHECK_ERRNO("ftell");

	if (!len) {
""", """	fseek(fd, 0, SEEK_END);

	const long len = ftell(fd);

	if (len <= 0) {
""")],
r"""
mkfifo a.sk
(printf 'return 3\n' > a.sk) 2>/dev/null &
timeout 20 "$SK" a.sk -c >comp.out 2>&1
rc=$?
kill $! 2>/dev/null
[ $rc -ne 0 ] || [ -s .a.sk.o ] || { echo "success without an output"; cat comp.out; exit 1; }
""", "a source whose size cannot be found out (a pipe, or an error of the file system)", "the source counts as empty and the compiler reports success without an output")

seed("c03-uninit", "C03", [("skull/parse/ast_node.c", """	*expr = (AstNodeExpr){
		.lhs = { .tok = ctx->token },
		.oper = is_identifier_like(ctx->token) ? EXPR_IDENTIFIER : EXPR_CONST
	};
""", """	expr->lhs.tok = ctx->token;
	expr->symbol = NULL;
	expr->rhs = NULL;
	expr->oper = is_identifier_like(ctx->token) ? EXPR_IDENTIFIER : EXPR_CONST;
	expr->type = NULL;
""")],
r"""
printf 'external ps(x: Str)\nx := 1 / 0\nps("abc")\n' > a.sk
for p in 0 1 85 170 255; do
  GLIBC_TUNABLES=glibc.malloc.perturb=$p "$SK" a.sk -E >out$p 2>&1
  echo "status $?" >> out$p
  cmp -s out0 out$p || { echo "the outcome depends on what fresh memory holds ($p)"; cat out$p; exit 1; }
done
""", "allocator returning memory that is not zero", "the output depends on the contents of uninitialised memory")

seed("c26-cached-module", "C26", [("skull/semantic/mangle.c", """	const char *module_name = strrchr(BUILD_DATA.filename, '/');
	if (module_name) module_name++;
	else module_name = BUILD_DATA.filename;
""", """	static char module_name[256];
	if (!*module_name) {
		const char *slash = strrchr(BUILD_DATA.filename, '/');
		strncpy(module_name, slash ? slash + 1 : BUILD_DATA.filename, 255);
	}
""")],
r"""
R=${SK%/build/skull/skull}
cat > drv.c <<'EOF'
#include <string.h>
#include <stdlib.h>
#include "skull/build_data.h"
int main(int argc, char **argv) {
	extern int cli_or_main(int, char *[]);
	for (int i = 1; i < argc; i++) {
		char out[64]; strcpy(out, "out0"); out[3] += i;
		memset(&BUILD_DATA, 0, sizeof BUILD_DATA);
		BUILD_DATA.preprocess = 1;
		BUILD_DATA.llvm_backend = 1;
		BUILD_DATA.filename = strdup(argv[i]);
		BUILD_DATA.out_file = strdup(out);
		char *a[] = { strdup("skull"), strdup(argv[i]), NULL };
		extern int real_main(int, char *[]);
		if (real_main(2, a)) return 2;
	}
	return 0;
}
EOF
cc -w -std=gnu2x -I"$R" drv.c "$R/build/objs/libskull.so" -o drv >cc.out 2>&1 || { cat cc.out; exit 99; }
printf 'export f() Int {\n\treturn 3\n}\n' > one.sk
printf 'export g() Int {\n\treturn 4\n}\n' > two.sk
LD_LIBRARY_PATH=$R/build/objs timeout 60 ./drv one.sk two.sk >drv.out 2>&1 || { cat drv.out; exit 1; }
timeout 60 "$SK" two.sk -E -o alone.ll || exit 99
cmp -s alone.ll out2 || { echo "the second compilation differs from a compilation alone"; diff alone.ll out2; exit 1; }
""", "two compilations of differently named modules in one process", "the second module's exports carry the first module's name")
