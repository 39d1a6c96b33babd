from mkseed import *
import shutil
def ns(sid, *a, **k):
    shutil.rmtree("/verif/seeded/" + sid, ignore_errors=True); mk(sid, *a, **k)

DEMO_PP = """#!/bin/bash
# Preprocesses the text and compares what comes out, up to white space.
D="$(cd "$(dirname "$0")" && pwd)"
export LD_LIBRARY_PATH="$PWD/bin/libs"
got="$(set -o pipefail; bin/kefir -p "$D/in.c" | tr -d ' \\t\\n')" || exit 1
want="$(tr -d ' \\t\\n' < "$D/want.txt")"
[ "$got" = "$want" ] || { echo "got $got, want $want"; exit 1; }
"""
ns("S16", "C22", [("source/ast/local_context.c", """            REQUIRE((*ordinary_id)->object.storage == KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL ||
                        (*ordinary_id)->object.storage == KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL,
""", """            REQUIRE((*ordinary_id)->object.storage == KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL,
""")],
 "a block scope extern _Thread_local declaration of an object whose file scope declaration is static", "the valid redeclaration is rejected", DEMO_RUN,
 {"prog.c": "static _Thread_local int x = 5;\nint g(void) { extern _Thread_local int x; return x; }\n",
  "main.c": "int g(void);\nint main(void) { return g() != 5; }\n"})
ns("S17", "C29", [("source/preprocessor/preprocessor.c", """    } else if (*condition_state == IF_CONDITION_FAIL) {
        kefir_bool_t condition;
        REQUIRE_OK(
            evaluate_pp_tokens(mem, preprocessor, &directive->pp_tokens, &directive->source_location, &condition));
        if (condition) {
            *condition_state = IF_CONDITION_SUCCESS;
            REQUIRE_OK(kefir_preprocessor_run_group(mem, preprocessor, group_buffer));
        } else {
            REQUIRE_OK(kefir_preprocessor_skip_group(mem, preprocessor));
        }
    } else {
        REQUIRE_OK(kefir_preprocessor_skip_group(mem, preprocessor));
    }
""", """    } else {
        kefir_bool_t condition;
        REQUIRE_OK(
            evaluate_pp_tokens(mem, preprocessor, &directive->pp_tokens, &directive->source_location, &condition));
        if (*condition_state == IF_CONDITION_FAIL && condition) {
            *condition_state = IF_CONDITION_SUCCESS;
            REQUIRE_OK(kefir_preprocessor_run_group(mem, preprocessor, group_buffer));
        } else {
            // Either the condition does not hold,
            // or one of the groups has been included
            REQUIRE_OK(kefir_preprocessor_skip_group(mem, preprocessor));
        }
    }
""")],
 "an #elif after a taken group whose condition cannot be evaluated (it divides by zero)", "the condition of the #elif is evaluated although an earlier group was taken: the valid file is rejected", DEMO_PP,
 {"in.c": "#define N 0\n#if N == 0\nint a;\n#elif 10 / N > 2\nint b;\n#else\nint c;\n#endif\n", "want.txt": "int a;\n"})
ns("S18", "C21", [("source/ast/analyzer/declarator.c", """                REQUIRE((decl_specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT &&
                         scoped_identifier->type->tag == KEFIR_AST_TYPE_STRUCTURE) ||
                            (decl_specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_UNION &&
                             scoped_identifier->type->tag == KEFIR_AST_TYPE_UNION),
""", """                REQUIRE(scoped_identifier->type->tag == KEFIR_AST_TYPE_STRUCTURE ||
                            scoped_identifier->type->tag == KEFIR_AST_TYPE_UNION,
""")],
 "a tag used with the other one of struct and union", "the invalid declaration is accepted and names the other kind of type", DEMO_ACCEPT,
 {"bad1.c": "struct s { int a; };\nunion s *p;\n", "good1.c": "struct s { int a; };\nstruct s *p;\nint f(void) { union s { char b; } x; x.b = 1; return x.b; }\n"})
