"""Authoring aid (used by no check): behaviour-preserving refactorings, applied together to a scratch copy; every check must stay quiet.
usage: refac.py [names...]   (environment: CHECKS=C01,C09  default all)"""
import os, sys, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/mut/refac"
REF = {}


def r(name, f, *edits):
    REF.setdefault(name, []).extend((f, a, b) for a, b in edits)


T = "source/ast-translator/"
r("conv_helper", T + "typeconv.c", ('''static kefir_result_t cast_to_integer(const''', '''static kefir_result_t mask_bits(struct kefir_irbuilder_block *builder, unsigned bits) {
    kefir_result_t res = KEFIR_OK;
    const kefir_uint64_t mask = (((kefir_uint64_t) 1) << bits) - 1;
    REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, mask));
    REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_IAND, 0));
    return res;
}

static kefir_result_t cast_to_integer(const'''),
 ('''            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0xffffULL));
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_IAND, 0));
''', '''            REQUIRE_OK(mask_bits(builder, 16));
'''), ('''            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0xffffffffULL));
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_IAND, 0));
''', '''            REQUIRE_OK(mask_bits(builder, 32));
'''))
r("conv_ternary", T + "typeconv.c", ('''        if (origin_sign) {
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_INTCF64, 0));
        } else {
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_UINTCF64, 0));
        }''', '''        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, origin_sign ? KEFIR_IROPCODE_INTCF64 : KEFIR_IROPCODE_UINTCF64, 0));'''))
r("add_table", T + "nodes/binary_operation.c", ('''static kefir_result_t translate_addition(''', '''struct op_choice {
    kefir_ast_type_tag_t tag;
    kefir_iropcode_t opcode;
};

static kefir_iropcode_t choose_opcode(const struct op_choice *choices, kefir_size_t count, kefir_ast_type_tag_t tag, kefir_iropcode_t fallback) {
    for (kefir_size_t i = 0; i < count; i++) {
        if (choices[i].tag == tag) {
            return choices[i].opcode;
        }
    }
    return fallback;
}

static kefir_result_t translate_addition('''), ('''        REQUIRE_OK(binary_prologue(mem, context, builder, node));
        switch (result_normalized_type->tag) {
            case KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDADD, 0));
                break;

            case KEFIR_AST_TYPE_SCALAR_DOUBLE:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F64ADD, 0));
                break;

            case KEFIR_AST_TYPE_SCALAR_FLOAT:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F32ADD, 0));
                break;

            default:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
                break;
        }
''', '''        static const struct op_choice choices[] = {{KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, KEFIR_IROPCODE_LDADD},
                                                   {KEFIR_AST_TYPE_SCALAR_DOUBLE, KEFIR_IROPCODE_F64ADD},
                                                   {KEFIR_AST_TYPE_SCALAR_FLOAT, KEFIR_IROPCODE_F32ADD}};
        REQUIRE_OK(binary_prologue(mem, context, builder, node));
        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, choose_opcode(choices, sizeof(choices) / sizeof(choices[0]), result_normalized_type->tag, KEFIR_IROPCODE_IADD), 0));
'''))
r("sub_ifchain", T + "nodes/binary_operation.c", ('''        switch (result_normalized_type->tag) {
            case KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDSUB, 0));
                break;

            case KEFIR_AST_TYPE_SCALAR_DOUBLE:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F64SUB, 0));
                break;

            case KEFIR_AST_TYPE_SCALAR_FLOAT:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F32SUB, 0));
                break;

            default:
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
                break;
        }
''', '''        kefir_iropcode_t opcode = KEFIR_IROPCODE_ISUB;
        if (result_normalized_type->tag == KEFIR_AST_TYPE_SCALAR_FLOAT) {
            opcode = KEFIR_IROPCODE_F32SUB;
        } else if (result_normalized_type->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {
            opcode = KEFIR_IROPCODE_F64SUB;
        } else if (result_normalized_type->tag == KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE) {
            opcode = KEFIR_IROPCODE_LDSUB;
        }
        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, opcode, 0));
'''))
r("prologue_operand", T + "nodes/binary_operation.c", ('''static kefir_result_t binary_prologue(struct''', '''static kefir_result_t translate_operand(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                        struct kefir_irbuilder_block *builder, const struct kefir_ast_node_base *operand,
                                        const struct kefir_ast_type *target_type) {
    const struct kefir_ast_type *type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
        mem, context->ast_context->type_bundle, kefir_ast_translator_normalize_type(operand->properties.type));
    REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
    REQUIRE_OK(kefir_ast_translate_expression(mem, operand, builder, context));
    return kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, type, target_type);
}

static kefir_result_t binary_prologue(struct'''), ('''    const struct kefir_ast_type *arg1_init_normalized_type =
        kefir_ast_translator_normalize_type(node->arg1->properties.type);
    const struct kefir_ast_type *arg1_normalized_type =
        KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, arg1_init_normalized_type);
    REQUIRE(arg1_normalized_type != NULL,
            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
    const struct kefir_ast_type *arg2_init_normalized_type =
        kefir_ast_translator_normalize_type(node->arg2->properties.type);
    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
    const struct kefir_ast_type *arg2_normalized_type =
        KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, arg2_init_normalized_type);
    REQUIRE(arg2_normalized_type != NULL,
            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
    const struct kefir_ast_type *result_normalized_type =
        kefir_ast_translator_normalize_type(node->base.properties.type);

    REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg1, builder, context));
    REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, arg1_normalized_type,
                                            result_normalized_type));
    REQUIRE_OK(kefir_ast_translate_expression(mem, node->arg2, builder, context));
    REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, arg2_normalized_type,
                                            result_normalized_type));
    return KEFIR_OK;
''', '''    const struct kefir_ast_type *result_type = kefir_ast_translator_normalize_type(node->base.properties.type);
    const struct kefir_ast_node_base *operands[2] = {node->arg1, node->arg2};
    for (kefir_size_t i = 0; i < 2; i++) {
        REQUIRE_OK(translate_operand(mem, context, builder, operands[i], result_type));
    }
    return KEFIR_OK;
'''))
r("store_reorder", T + "nodes/assignment_operator.c", ('''        kefir_bool_t signedness;
        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, result_normalized_type, &signedness));
        const kefir_size_t bitwidth = node->target->properties.expression_props.bitfield_props.width;
        if (signedness) {
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_EXTSBITS, 0, bitwidth));
        } else {
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_EXTUBITS, 0, bitwidth));
        }
    }
    return KEFIR_OK;
''', '''        const struct kefir_ast_bitfield_properties *props = &node->target->properties.expression_props.bitfield_props;
        kefir_bool_t signedness = false;
        kefir_result_t res =
            kefir_ast_type_is_signed(context->ast_context->type_traits, result_normalized_type, &signedness);
        if (res != KEFIR_OK) {
            return res;
        }
        return KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, signedness ? KEFIR_IROPCODE_EXTSBITS : KEFIR_IROPCODE_EXTUBITS, 0,
                                               props->width);
    }
    return KEFIR_OK;
'''))
r("call_merge", T + "nodes/function_call.c", ('''        case KEFIR_AST_FUNCTION_TYPE_PARAMETERS: {
            struct kefir_ast_translator_function_declaration *func_decl = NULL;
            REQUIRE_OK(kefir_ast_translator_function_declaration_init(
                mem, context->environment, context->ast_context->type_bundle, context->ast_context->type_traits,
                context->module, function_name, function_type, &node->arguments, &func_decl));
            ir_decl = func_decl->ir_function_decl;
            if (ir_decl->name == NULL) {
                REQUIRE_OK(kefir_ast_translate_expression(mem, node->function, builder, context));
            }
            kefir_result_t res = translate_parameters(mem, context, builder, node, func_decl);
            REQUIRE_ELSE(res == KEFIR_OK, {
                kefir_ast_translator_function_declaration_free(mem, func_decl);
                return res;
            });
            REQUIRE_OK(kefir_ast_translator_function_declaration_free(mem, func_decl));
        } break;

        case KEFIR_AST_FUNCTION_TYPE_PARAM_IDENTIFIERS: {
            struct kefir_ast_translator_function_declaration *func_decl = NULL;
            REQUIRE_OK(kefir_ast_translator_function_declaration_init(
                mem, context->environment, context->ast_context->type_bundle, context->ast_context->type_traits,
                context->module, function_name, function_type, &node->arguments, &func_decl));
            ir_decl = func_decl->ir_function_decl;
            if (ir_decl->name == NULL) {
                REQUIRE_OK(kefir_ast_translate_expression(mem, node->function, builder, context));
            }
            kefir_result_t res = translate_parameters(mem, context, builder, node, func_decl);
            REQUIRE_ELSE(res == KEFIR_OK, {
                kefir_ast_translator_function_declaration_free(mem, func_decl);
                return res;
            });
            REQUIRE_OK(kefir_ast_translator_function_declaration_free(mem, func_decl));
        } break;

        case KEFIR_AST_FUNCTION_TYPE_PARAM_EMPTY: {
''', '''        case KEFIR_AST_FUNCTION_TYPE_PARAMETERS:
        case KEFIR_AST_FUNCTION_TYPE_PARAM_IDENTIFIERS:
        case KEFIR_AST_FUNCTION_TYPE_PARAM_EMPTY: {
'''))
r("params_while", T + "nodes/function_call.c", ('''    for (; arg_value_iter != NULL && decl_arg_iter != NULL;
         kefir_list_next(&arg_value_iter), kefir_list_next(&decl_arg_iter)) {
''', '''    while (arg_value_iter != NULL && decl_arg_iter != NULL) {
'''), ('''                                                    parameter_layout->type));
        }
    }
''', '''                                                    parameter_layout->type));
        }
        arg_value_iter = arg_value_iter->next;
        decl_arg_iter = decl_arg_iter->next;
    }
'''))
r("for_discard", T + "nodes/for_statement.c", ('''kefir_result_t kefir_ast_translate_for_statement_node(struct''', '''static kefir_result_t translate_discarded(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                          struct kefir_irbuilder_block *builder, const struct kefir_ast_node_base *expr) {
    const struct kefir_ast_type *type = kefir_ast_translator_normalize_type(expr->properties.type);
    REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain normalized expression type"));
    REQUIRE_OK(kefir_ast_translate_expression(mem, expr, builder, context));
    kefir_size_t slots = type->tag == KEFIR_AST_TYPE_VOID ? 0 : KEFIR_AST_TYPE_IS_LONG_DOUBLE(type) ? 2 : 1;
    while (slots-- > 0) {
        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
    }
    return KEFIR_OK;
}

kefir_result_t kefir_ast_translate_for_statement_node(struct'''), ('''        const struct kefir_ast_type *tail_type = kefir_ast_translator_normalize_type(node->tail->properties.type);
        REQUIRE(tail_type != NULL,
                KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain normalized expression type"));
        REQUIRE_OK(kefir_ast_translate_expression(mem, node->tail, builder, context));
        if (tail_type->tag != KEFIR_AST_TYPE_VOID) {
            if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(tail_type)) {
                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
            }
            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
        }
''', '''        REQUIRE_OK(translate_discarded(mem, context, builder, node->tail));
'''))
r("assign_order", "source/ast/analyzer/nodes/assignment_operator.c", ('''            REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(target_type),
                    KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                           "Expected assignment target operand have integral type"));
            REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(value_type),
                    KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->value->source_location,
                                           "Expected assignment value operand to have integral type"));
''', '''            if (!KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(target_type) || !KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(value_type)) {
                return KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                              "Expected both assignment operands to have integral type");
            }
'''), ('''    switch (node->operation) {
        case KEFIR_AST_ASSIGNMENT_SIMPLE:
            REQUIRE_OK(validate_simple_assignment(mem, context, node));
            break;

        default:
            REQUIRE_OK(validate_compound_assignment(mem, context, node));
            break;
    }
''', '''    kefir_result_t (*validate)(struct kefir_mem *, const struct kefir_ast_context *,
                               const struct kefir_ast_assignment_operator *) =
        node->operation == KEFIR_AST_ASSIGNMENT_SIMPLE ? validate_simple_assignment : validate_compound_assignment;
    REQUIRE_OK(validate(mem, context, node));
'''))
r("additive_table", "source/parser/rules/additive_expression.c", ('''    kefir_bool_t scan_additive = true;
    do {
        kefir_result_t res;
        if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_PLUS)) {
            REQUIRE_OK(PARSER_SHIFT(parser));
            REQUIRE_MATCH_OK(&res,
                             kefir_parser_ast_builder_scan(
                                 mem, builder, KEFIR_PARSER_RULE_FN(parser, multiplicative_expression), NULL),
                             KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                                    "Expected multiplicative expression"));
            REQUIRE_OK(kefir_parser_ast_builder_binary_operation(mem, builder, KEFIR_AST_OPERATION_ADD));
        } else if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_MINUS)) {
            REQUIRE_OK(PARSER_SHIFT(parser));
            REQUIRE_MATCH_OK(&res,
                             kefir_parser_ast_builder_scan(
                                 mem, builder, KEFIR_PARSER_RULE_FN(parser, multiplicative_expression), NULL),
                             KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                                    "Expected multiplicative expression"));
            REQUIRE_OK(kefir_parser_ast_builder_binary_operation(mem, builder, KEFIR_AST_OPERATION_SUBTRACT));
        } else {
            scan_additive = false;
        }
    } while (scan_additive);
''', '''    for (;;) {
        const struct kefir_token *token = PARSER_CURSOR(parser, 0);
        if (token->klass != KEFIR_TOKEN_PUNCTUATOR) {
            break;
        }
        kefir_ast_binary_operation_type_t op;
        if (token->punctuator == KEFIR_PUNCTUATOR_PLUS) {
            op = KEFIR_AST_OPERATION_ADD;
        } else if (token->punctuator == KEFIR_PUNCTUATOR_MINUS) {
            op = KEFIR_AST_OPERATION_SUBTRACT;
        } else {
            break;
        }
        REQUIRE_OK(PARSER_SHIFT(parser));
        kefir_result_t res = kefir_parser_ast_builder_scan(
            mem, builder, KEFIR_PARSER_RULE_FN(parser, multiplicative_expression), NULL);
        if (res == KEFIR_NO_MATCH) {
            return KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                          "Expected multiplicative expression");
        }
        REQUIRE_OK(res);
        REQUIRE_OK(kefir_parser_ast_builder_binary_operation(mem, builder, op));
    }
'''))
r("while_helper", "source/parser/rules/iteration_statement.c", ('''static kefir_result_t scan_while(struct''', '''static kefir_result_t expect_punctuator(struct kefir_parser *parser, kefir_punctuator_token_t punctuator,
                                        const char *message) {
    REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, punctuator),
            KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0), message));
    return PARSER_SHIFT(parser);
}

static kefir_result_t scan_while(struct'''), ('''    REQUIRE_OK(PARSER_SHIFT(parser));
    REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_SEMICOLON),
            KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0), "Expected semicolon"));
    REQUIRE_OK(PARSER_SHIFT(parser));
    REQUIRE_OK(kefir_parser_ast_builder_do_while_statement(mem, builder));
''', '''    REQUIRE_OK(PARSER_SHIFT(parser));
    REQUIRE_OK(expect_punctuator(parser, KEFIR_PUNCTUATOR_SEMICOLON, "Expected semicolon"));
    REQUIRE_OK(kefir_parser_ast_builder_do_while_statement(mem, builder));
'''))
r("postfix_flag", "source/parser/rules/postfix_expression.c", ('''        } else if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_DOUBLE_PLUS)) {
            REQUIRE_OK(PARSER_SHIFT(parser));
            REQUIRE_OK(kefir_parser_ast_builder_unary_operation(mem, builder, KEFIR_AST_OPERATION_POSTFIX_INCREMENT));
            REQUIRE_OK(kefir_parser_ast_builder_set_source_location(mem, builder, &location));
        } else if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_DOUBLE_MINUS)) {
            REQUIRE_OK(PARSER_SHIFT(parser));
            REQUIRE_OK(kefir_parser_ast_builder_unary_operation(mem, builder, KEFIR_AST_OPERATION_POSTFIX_DECREMENT));
            REQUIRE_OK(kefir_parser_ast_builder_set_source_location(mem, builder, &location));
        } else {''', '''        } else if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_DOUBLE_PLUS) ||
                   PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_DOUBLE_MINUS)) {
            const kefir_bool_t increment = PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_DOUBLE_PLUS);
            REQUIRE_OK(PARSER_SHIFT(parser));
            REQUIRE_OK(kefir_parser_ast_builder_unary_operation(mem, builder,
                                                                increment ? KEFIR_AST_OPERATION_POSTFIX_INCREMENT
                                                                          : KEFIR_AST_OPERATION_POSTFIX_DECREMENT));
            REQUIRE_OK(kefir_parser_ast_builder_set_source_location(mem, builder, &location));
        } else {'''))
r("unary_hoist", "source/ast/constant_expression/unary_operation.c", ('''                value->integer = -arg_value.uinteger;
''', '''                value->integer = (kefir_int64_t) (0 - (kefir_uint64_t) arg_value.integer);
'''), ('''                value->integer = ~arg_value.integer;
''', '''                value->integer = arg_value.integer ^ -1;
'''), ('''                value->integer = !arg_value.integer;
''', '''                value->integer = arg_value.integer == 0 ? 1 : 0;
'''))
r("list_free_for", "source/core/list.c", ('''    struct kefir_list_entry *current = list->head, *next = NULL;
    while (current != NULL) {
        next = current->next;
''', '''    for (struct kefir_list_entry *current = list->head, *next = NULL; current != NULL; current = next) {
        next = current->next;
'''), ('''        KEFIR_FREE(mem, current);
        current = next;
    }
    list->head = NULL;
''', '''        KEFIR_FREE(mem, current);
    }
    list->head = NULL;
'''))
r("cursor", "source/parser/cursor.c", ('''    kefir_size_t index = cursor->index + offset;
    if (index < cursor->length) {
        return &cursor->tokens[index];
    } else {
        return &cursor->sentinel;
    }
''', '''    const kefir_size_t position = cursor->index + offset;
    return position >= cursor->length ? &cursor->sentinel : cursor->tokens + position;
'''), ('''    if (cursor->index < cursor->length) {
        cursor->index++;
    }
    return KEFIR_OK;
''', '''    REQUIRE(cursor->index < cursor->length, KEFIR_OK);
    cursor->index += 1;
    return KEFIR_OK;
'''))


def main():
    names = sys.argv[1:] or list(REF)
    shutil.rmtree(R, ignore_errors=True)
    os.makedirs(R)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + R, shell=True, check=True)
    for n in names:
        for f, a, b in REF[n]:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(a) < 1:
                print("REFACTORING %s: pattern not found in %s: %s" % (n, f, a[:80]))
                continue
            open(p, "w").write(s.replace(a, b, 1))
    import json
    checks = os.environ.get("CHECKS") or ",".join(c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"])
    env = dict(os.environ, KV_REPO=R)
    for c in checks.split(","):
        p = subprocess.run([sys.executable, V + "/check.py", c, "quick"], env=env, capture_output=True, text=True)
        bad = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print(c, "exit", p.returncode, "".join("\n   " + l[:250] for l in bad[:5]), flush=True)
        if p.returncode:
            print(p.stdout[-1500:], p.stderr[-1500:])


if __name__ == "__main__":
    main()
