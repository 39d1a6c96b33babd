from mkseed import *
import shutil
def ns(sid, *a, **k):
    shutil.rmtree("/verif/seeded/" + sid, ignore_errors=True); mk(sid, *a, **k)

TWICE_C = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "kefir/compiler/compiler.h"
#include "kefir/compiler/profile.h"
#include "kefir/cli/filesystem_source.h"
static char *compile(const char *src) {
    struct kefir_mem *mem = kefir_system_memalloc();
    struct kefir_compiler_profile profile;
    struct kefir_compiler_context compiler;
    struct kefir_preprocessor_filesystem_source_locator loc;
    struct kefir_token_buffer tokens;
    struct kefir_ast_translation_unit *unit = NULL;
    struct kefir_ir_module module;
    char *out = NULL; size_t n = 0;
    FILE *f = open_memstream(&out, &n);
#define R(x) do { if ((x) != KEFIR_OK) { fprintf(stderr, "failed: %s\n", #x); exit(3); } } while (0)
    R(kefir_preprocessor_filesystem_source_locator_init(&loc, &compiler.ast_global_context.symbols));
    R(kefir_compiler_profile(&profile, NULL));
    R(kefir_compiler_context_init(mem, &compiler, &profile, &loc.locator, NULL));
    R(kefir_token_buffer_init(&tokens));
    R(kefir_compiler_preprocess_lex(mem, &compiler, &tokens, src, strlen(src), "a.c", "a.c"));
    R(kefir_compiler_parse(mem, &compiler, &tokens, &unit));
    R(kefir_compiler_analyze(mem, &compiler, KEFIR_AST_NODE_BASE(unit)));
    R(kefir_ir_module_alloc(mem, &module));
    R(kefir_compiler_translate(mem, &compiler, unit, &module));
    R(kefir_compiler_codegen(mem, &compiler, &module, f));
    R(kefir_ir_module_free(mem, &module));
    R(KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(unit)));
    R(kefir_token_buffer_free(mem, &tokens));
    R(kefir_compiler_context_free(mem, &compiler));
    R(kefir_preprocessor_filesystem_source_locator_free(mem, &loc));
    fclose(f);
    return out;
}
int main(void) {
    static const char A[] = "extern int puts(const char *);\nint f(int x) { puts(\"abc\"); return x + 1; }\nconst char *s = \"xyz\";\n";
    static const char B[] = "extern int puts(const char *);\nint g(void) { puts(\"first\"); puts(\"second\"); return puts(\"abc\"); }\n";
    char *a1 = compile(A), *b1 = compile(B), *a2 = compile(A), *b2 = compile(B);
    if (strcmp(a1, a2) != 0) { puts("the second compilation of the same text gives another result"); return 1; }
    if (strcmp(b1, b2) != 0) { puts("the second compilation of the same text gives another result"); return 2; }
    free(a1); free(a2); free(b1); free(b2);
    return 0;
}
'''
DEMO_TWICE = r'''#!/bin/bash
# Compiles the same texts twice in one process; the results have to be the same.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$PWD/bin/libs"
gcc -w -std=gnu17 -Iheaders -o "$T/twice" "$D/twice.c" -Lbin/libs -lkefir || exit 3
"$T/twice"; rc=$?
[ $rc -eq 0 ] || exit 1
'''
T = "source/ast-translator/typeconv.c"
ns("S09", "C16", [(T, '''    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(origin) || origin->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
        // Do nothing
    } else''', '''    if (origin->tag == KEFIR_AST_TYPE_SCALAR_POINTER && target->tag != KEFIR_AST_TYPE_SCALAR_BOOL) {
        // Addresses fit any integral cell
        return KEFIR_OK;
    } else if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(origin)) {
        // Do nothing
    } else''')], "a pointer with bits above the destination's width converted to an integer narrower than a pointer",
 "the converted value keeps the address bits that the destination type cannot hold", DEMO_RUN,
 {"prog.c": "unsigned long f(void *p) { return (unsigned) p; }\nlong g(char *p) { return (short) p; }\n_Bool h(int *p) { return p; }\nunsigned long i(void *p) { return (unsigned long) p; }\n",
  "main.c": "unsigned long f(void *), i(void *);\nlong g(char *);\n_Bool h(int *);\nint main(void) { return f((void *) 0x7123456789abcdefl) != 0x89abcdefu || g((char *) 0x12348765l) != (short) 0x8765 || !h((int *) 0x100) || i((void *) 0x7123456789abcdefl) != 0x7123456789abcdefl; }\n"})
ns("S12", "C28", [("source/ast-translator/nodes/function_call.c", '''    if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(node->base.properties.type)) {
''', '''    if (node->base.properties.type->tag == KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT && ir_decl->name == NULL) {
        // 32-bit results are already zero-extended
    } else if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(node->base.properties.type)) {
''')], "a call through a function pointer to a function returning unsigned int that leaves bits in the upper half of the return register (allowed by the ABI)",
 "the result of the call keeps bits outside its type", DEMO_RUN,
 {"prog.c": "unsigned long f(unsigned (*p)(int), int x) { return p(x); }\nint g(unsigned (*p)(int), int x) { return p(x) == 5u; }\n",
  "main.c": "__asm__(\".text\\ncallee: movslq %edi, %rax\\n movabsq $0x7700000000, %rcx\\n orq %rcx, %rax\\n ret\\n\");\nunsigned callee(int);\nunsigned long f(unsigned (*)(int), int);\nint g(unsigned (*)(int), int);\nint main(void) { return f(callee, 5) != 5 || !g(callee, 5) || f(callee, -1) != 0xffffffffu; }\n"})
ns("S13", "C08", [("source/runtime/amd64_sysv.s", '''    comisd xmm0, xmm1
    seta al
''', '''    comisd xmm1, xmm0
    setb al
''')], "a comparison of doubles of which one is not a number", "x > NaN is true", DEMO_RUN,
 {"prog.c": "int gt(double a, double b) { return a > b; }\nint lt(double a, double b) { return a < b; }\n",
  "main.c": "int gt(double, double), lt(double, double);\nint main(void) { double n = __builtin_nan(\"\"); return gt(1, n) || gt(n, 1) || gt(n, n) || lt(n, 1) || lt(1, n) || !gt(2, 1) || gt(1, 2) || gt(1, 1); }\n"})
ns("S14", "C06", [("source/ir/module.c", '''    kefir_result_t res =
        kefir_hashtree_insert(mem, &module->string_literals, (kefir_hashtree_key_t) module->next_string_literal_id,
                              (kefir_hashtree_value_t) literal);
''', '''    // Keep identifiers distinct in modules that are linked together
    static kefir_id_t last_string_literal_id = 0;
    if (module->next_string_literal_id < last_string_literal_id) {
        module->next_string_literal_id = last_string_literal_id;
    }
    last_string_literal_id = module->next_string_literal_id + 1;
    kefir_result_t res =
        kefir_hashtree_insert(mem, &module->string_literals, (kefir_hashtree_key_t) module->next_string_literal_id,
                              (kefir_hashtree_value_t) literal);
''')], "two compilations in one process, both with string literals", "the second result depends on how many literals the first one had", DEMO_TWICE, {"twice.c": TWICE_C})
ns("S15", "C18", [("source/ast/type/function.c", '''            false);
        REQUIRE(type1->function_type.ellipsis == type2->function_type.ellipsis, false);
''', '''            false);
        REQUIRE(!type1->function_type.ellipsis || type2->function_type.ellipsis, false);
''')], "a declaration without ellipsis followed by one of the same function with ellipsis", "the two types count as compatible in one order: the redeclaration is accepted",
 DEMO_ACCEPT, {"bad1.c": "int f(int, ...);\nint f(int);\n", "bad2.c": "int f(int);\nint f(int, ...);\n",
  "bad3.c": "int (*p)(int, ...);\nint (*q)(int);\nvoid g(void) { p = q; }\n", "bad4.c": "int (*p)(int, ...);\nint (*q)(int);\nvoid g(void) { q = p; }\n", "good1.c": "int f(int, ...);\nint f(int, ...);\nint g(int, long);\nint g(int, long);\n"})
