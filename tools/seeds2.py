from mkseed import *
BT = "source/ast-translator/nodes/binary_operation.c"
mk("S04", "C09", [(BT, '''        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg1, builder, context));
        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, arg1_normalized_type,
                                                common_type));
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg2, builder, context));
        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, arg2_normalized_type,
                                                common_type));
    } else {
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg1, builder, context));
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg2, builder, context));
        common_type = arg1_normalized_type;
''', '''        const kefir_bool_t integral = KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(common_type);
        const kefir_bool_t wide1 = integral && arg1_normalized_type->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_INT;
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg1, builder, context));
        if (!wide1) {
            REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, arg1_normalized_type,
                                                    common_type));
        }
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg2, builder, context));
        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, arg2_normalized_type,
                                                common_type));
    } else {
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg1, builder, context));
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg2, builder, context));
        common_type = arg1_normalized_type;
''')], "a comparison of a negative int on the left with an unsigned int on the right",
"the left operand is not converted to unsigned int: -1 == 0xffffffffu is false, -1 > 1u compares 64-bit values", DEMO_RUN,
{"prog.c": "int eq(int a, unsigned b) { return a == b; }\nint gt(int a, unsigned b) { return a > b; }\nint lt(int a, unsigned b) { return a < b; }\n",
 "main.c": "int eq(int, unsigned), gt(int, unsigned), lt(int, unsigned);\nint main(void) { if (!eq(-1, 0xffffffffu)) return 1; if (!gt(-1, 1u)) return 2; if (lt(-2, 0xfffffffeu)) return 3; return 0; }\n"})
mk("S05", "C10", [("source/ast-translator/nodes/switch_statement.c", "KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PUSHI64, value)",
 "KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PUSHI64, (kefir_int32_t) value)")],
 "a case label of a switch over long whose value does not fit in int", "the label value is truncated: another value is selected", DEMO_RUN,
 {"prog.c": "int f(long x) { switch (x) { case 1: return 10; case 0x100000005l: return 20; case 7: return 30; default: return 40; } }\n",
  "main.c": "int f(long);\nint main(void) { return f(0x100000005l) != 20 || f(5) != 40 || f(1) != 10 || f(7) != 30; }\n"})
mk("S06", "C11", [("source/parser/rules/shift_expression.c", "additive_expression), NULL)", "shift_expression), NULL)", 2)],
 "two consecutive right shifts without parentheses", "a >> b >> c groups as a >> (b >> c)", DEMO_RUN,
 {"prog.c": "int f(int a, int b, int c) { return a >> b >> c; }\n", "main.c": "int f(int, int, int);\nint main(void) { return f(256, 4, 2) != 4; }\n"})
mk("S07", "C13", [("source/ast/constant_expression/binary_operation.c", "arg1_value.uinteger >= arg2_value.uinteger", "arg1_value.integer >= arg2_value.integer")],
 "a >= comparison of unsigned constants of which one is above the signed range", "18446744073709551615ull >= 1ull folds to 0", DEMO_ACCEPT,
 {"good1.c": '_Static_assert(18446744073709551615ull >= 1ull, "wrong");\n_Static_assert(!(1ull >= 9223372036854775808ull), "wrong");\nint x = 3u >= 2u ? 4 : 5;\n'})
mk("S08", "C14", [("source/ast/constant_expression/binary_operation.c", "value->uinteger = arg1_value.uinteger % arg2_value.integer;",
 "value->uinteger = arg1_value.uinteger % (kefir_uint32_t) arg2_value.uinteger;")],
 "an unsigned remainder by a multiple of 2^32 in a constant expression", "the compiler divides by zero and is killed", DEMO_ACCEPT,
 {"good1.c": '_Static_assert(12884901895ull % 4294967296ull == 7, "wrong");\nint a[17u % 5u];\n'})
mk("S09", "C16", [("source/ast-translator/typeconv.c", "KEFIR_IROPCODE_UINTCLD", "KEFIR_IROPCODE_INTCLD")],
 "a conversion of an unsigned long above the signed range to long double", "the value becomes negative", DEMO_RUN,
 {"prog.c": "long double f(unsigned long x) { return x; }\n", "main.c": "long double f(unsigned long);\nint main(void) { return f(~0ul) != 18446744073709551615.0L || f(5) != 5.0L; }\n"})
mk("S10", "C20", [("source/ast/analyzer/nodes/conditional_operator.c", "kefir_ast_type_retrieve_qualifications(&qualifications2, type2->referenced_type)",
 "kefir_ast_type_retrieve_qualifications(&qualifications2, type1->referenced_type)")],
 "a conditional operator whose last operand alone points to a qualified type", "c ? p : q loses the const of q's target: the object can be assigned through it", DEMO_ACCEPT,
 {"bad1.c": "int f(int c, int *p, const int *q) { *(c ? p : q) = 1; return 0; }\n", "bad2.c": "int f(int c, int *p, const int *q) { *(c ? q : p) = 1; return 0; }\n",
  "good1.c": "int f(int c, int *p, int *q) { *(c ? p : q) = 1; return 0; }\n"})
mk("S11", "C25", [("source/ast-translator/nodes/assignment_operator.c", '''    const struct kefir_ast_type *common_type = kefir_ast_type_common_arithmetic(
        context->ast_context->type_traits, target_normalized_type,
        node->target->properties.expression_props.bitfield_props, value_normalized_type,
        node->value->properties.expression_props.bitfield_props);
''', '''    const struct kefir_ast_type *common_type = kefir_ast_type_common_arithmetic(
        context->ast_context->type_traits, target_normalized_type,
        node->value->properties.expression_props.bitfield_props, value_normalized_type,
        node->value->properties.expression_props.bitfield_props);
''', 1)], "s.b /= a negative number where b is an unsigned bit-field narrower than int",
 "the bit-field is not promoted to int, the division is unsigned", DEMO_RUN,
 {"prog.c": "struct s { unsigned a : 3; unsigned b : 5; };\nint f(struct s *p, int v) { p->b /= v; return p->b; }\n",
  "main.c": "struct s { unsigned a : 3; unsigned b : 5; };\nint f(struct s *, int);\nint main(void) { struct s s = {5, 12}; int r = f(&s, -4); return r != 29 || s.b != 29 || s.a != 5; }\n"})
mk("S12", "C28", [("source/ast-translator/function_declaration.c", '''kefir_ast_type_function_default_argument_convertion_promotion(
            mem, type_bundle, type_traits, param->properties.type);
        REQUIRE(param_type != NULL,
                KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to perform default function argument promotions"));

        struct kefir_ast_type_layout *parameter_layout = NULL;
        kefir_result_t res =''', '''KEFIR_AST_TYPE_IS_FLOATING_POINT(param->properties.type)
                                                  ? kefir_ast_unqualified_type(param->properties.type)
                                                  : kefir_ast_type_function_default_argument_convertion_promotion(
                                                        mem, type_bundle, type_traits, param->properties.type);
        REQUIRE(param_type != NULL,
                KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to perform default function argument promotions"));

        struct kefir_ast_type_layout *parameter_layout = NULL;
        kefir_result_t res =''')], "a float passed beyond the parameters of a variadic function", "the argument is passed as float, not promoted to double", DEMO_RUN,
 {"prog.c": "int sum(int n, ...);\nint f(float a, double b) { return sum(2, a, b); }\n",
  "main.c": "#include <stdarg.h>\nint sum(int n, ...) { va_list l; va_start(l, n); double s = 0; while (n--) s += va_arg(l, double); va_end(l); return s * 4; }\nint f(float, double);\nint main(void) { return f(1.5f, 2.25) != 15; }\n"})
mk("S13", "C08", [("source/runtime/amd64_sysv.s", '''    and DATA_REG, 1
    or  DATA_REG, DATA2_REG
    cvtsi2sd''', '''    and DATA_REG, 2
    or  DATA_REG, DATA2_REG
    cvtsi2sd''')], "an unsigned long above 2^63 converted to double, its lowest bit deciding the rounding",
 "the sticky bit is taken from the wrong position: results are off by one unit in the last place", DEMO_RUN,
 {"prog.c": "double f(unsigned long x) { return x; }\n",
  "main.c": "double f(unsigned long);\nint main(void) { unsigned long v[] = {0x8000000000000401ul, 0x8000000000000400ul, 0x8000000000000402ul, ~0ul, 0x8000000000000001ul, 5}; for (int i = 0; i < 6; i++) if (f(v[i]) != (double) v[i]) return 1 + i; return 0; }\n"})
