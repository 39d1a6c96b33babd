from mkseed import *
mk("S01", "C01", [("source/preprocessor/user_macro.c",
'''    REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, buffer, left, right));
    REQUIRE_CHAIN(&res, kefir_token_buffer_insert(mem, buffer, &tail));
''','''    REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, buffer, left, right));
    res = kefir_token_buffer_insert(mem, buffer, &tail);
''')], "a ## whose operands do not paste into a token",
"the failure of the token paste is overwritten by the success of appending the remaining tokens: the compiler accepts the program and drops the operands",
demo='''#!/bin/bash
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$PWD/bin/libs"
printf '#define C(a,b) a##b\\nint x = 1 C(+,~) ;\\n' > "$T/bad.c"
printf '#define C(a,b) a##b\\nint x = 1 C(<,<) 2;\\n' > "$T/ok.c"
bin/kefir -o "$T/ok.s" "$T/ok.c" || exit 2
if bin/kefir -o "$T/bad.s" "$T/bad.c" 2>/dev/null; then echo "invalid token paste was accepted"; exit 1; fi
exit 0
''')
mk("S02", "C01", [("source/preprocessor/token_sequence.c",
'''    res = kefir_token_buffer_insert(mem, &buffer_elt->buffer, src);
    REQUIRE_ELSE(res == KEFIR_OK, {
        kefir_token_buffer_free(mem, &buffer_elt->buffer);
        KEFIR_FREE(mem, buffer_elt);
        return res;
    });
    buffer_elt->index = 0;
''','''    res = kefir_token_buffer_insert(mem, &buffer_elt->buffer, src);
    if (res != KEFIR_OK) {
        kefir_token_buffer_free(mem, &buffer_elt->buffer);
    }
    buffer_elt->index = 0;
''')], "an allocation failing while macro replacement tokens are pushed back",
"the preprocessor silently drops the replacement list and goes on: compilation succeeds with tokens missing",
files={"in.c": "#define G(...) __VA_ARGS__\nG() int a = 3 + 4;\nint b;\n#define EMPTY(x) x\nint c EMPTY(= 5);\nint f(void) { return b + c; }\n"})
mk("S03", "C02", [("source/ast/type/function.c",
'''    REQUIRE(param != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate memory for function parameter"));
    param->type = type;
    if (type) {
        param->adjusted_type = kefir_ast_type_conv_adjust_function_parameter(mem, type_bundle, type);
        REQUIRE(param->adjusted_type != NULL,
                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to adjust AST function parameter type"));
''','''    param->type = type;
    if (type) {
        param->adjusted_type = kefir_ast_type_conv_adjust_function_parameter(mem, type_bundle, type);
        REQUIRE(param != NULL && param->adjusted_type != NULL,
                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to adjust AST function parameter type"));
''')], "the allocation of a function type parameter is refused",
"the parameter record is written before it is known to exist: the compiler crashes instead of reporting the failed allocation",
files={"in.c": IN_C})
