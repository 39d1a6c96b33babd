ALLC = ["source/", "headers/kefir/core/error.h"]

P("C01", "No internal failure is ever turned into success",
  "Whenever any operation inside the compiler fails (a syntax or semantic error, a failed lookup that matters, a full or "
  "refused resource, an input/output error reported by a stage), the operation that asked for it fails too, or handles that "
  "particular failure explicitly. No function of the library reports success after a failure it met was ignored, overwritten "
  "or dropped, and a genuine error is never relabelled as the harmless 'no match / not found / end' outcomes that callers "
  "use for backtracking.",
  ["inputs", "fault_sequences"],
  "every path through every function of the library and the command line program, for every source program and every "
  "combination of failing callees",
  "tests reach few failure paths: almost every check of a returned status is exercised only with success",
  ALLC, [("status codes, propagation macros", "headers/kefir/core/error.h, headers/kefir/core/util.h"),
         ("every call of a status-returning function", "source/**/*.c")],
  technique="path-sensitive interprocedural dataflow over LLVM IR (typestate of status values)",
  note="Every path of every non-test function is followed with callee outcome summaries computed bottom-up; unknown "
       "indirect callees are all functions stored in the same structure slot. A few functions exceed the state budget and "
       "are covered up to it (listed in the evidence).",
  observe="exit status of the compiler, return value of library calls")

P("C02", "A refused allocation is reported, never dereferenced or ignored",
  "If the memory allocator refuses any single request, at any moment, the running operation returns a failure to its caller; "
  "it neither reads or writes through the missing object nor reports success without it. The same holds for any constructor "
  "or lookup that yields no object.",
  ["fault_sequences", "inputs"],
  "every allocation request and every constructor call in the code base, for every input that reaches it",
  "the test-suite never makes an allocation fail",
  ALLC, [("allocator interface", "headers/kefir/core/mem.h"), ("constructors returning objects or nothing", "source/**/*.c")],
  technique="path-sensitive interprocedural null-pointer and failure-propagation dataflow over LLVM IR",
  note="Pointers obtained from an allocator, constructor or lookup are tracked with their null/non-null outcome on every "
       "path; a dereference, or a hand-over to a callee that dereferences unconditionally, on a path where it is null is "
       "reported, as is success reported after a refused allocation.",
  observe="process termination by signal; exit status")

P("C06", "Compilations never influence one another through hidden shared state",
  "The output and diagnostics of a compilation depend only on its own inputs and configuration. Any number of compilations can "
  "run one after another or concurrently in one process, each on its own objects, without one observing or corrupting "
  "another: the library keeps no writable storage that outlives a compilation and is shared between compilations, other than "
  "the per-thread record of the last error.",
  ["inputs", "schedules", "histories"],
  "every order and interleaving of compilations in one process",
  "tests compile one thing at a time in one thread",
  ["source/", "headers/"],
  [("every writable object with static storage", "source/**/*.c"), ("per-thread error record", "source/core/error.c"),
   ("target and host configuration tables", "source/compiler/profile/*.c, source/core/*.c")],
  technique="escape and effect analysis of every global over LLVM IR, plus a list of non-reentrant library calls",
  note="Every writable global and function-local static of the library is followed through the program (stores, escapes into "
       "structures, calls); writes outside initialisation that are not per-thread are reported, as are calls of C library "
       "functions with process-wide state. The command line program's own option tables are out of scope.",
  observe="generated assembly, error records")

P("C08", "Every IR instruction's machine routine computes exactly its defined result",
  "For every instruction of the intermediate language, the generated program's routine for it consumes exactly the operands the "
  "instruction defines, leaves exactly the defined results (for every operand value: width, sign, wrap-around and bit position "
  "included), transfers control where the instruction says, and leaves every other operand, saved register and the stack "
  "discipline untouched. The shared entry, exit, argument and variadic helper routines preserve the registers and state the "
  "calling convention requires.",
  ["inputs", "configurations"],
  "every operand value, every operand stack content and every immediate argument of each instruction",
  "tests run each routine on a handful of operand values with one stack depth",
  ["source/runtime/amd64_sysv.s", "headers/kefir/codegen/amd64/system-v/runtime.h", "source/codegen/amd64/opcodes.c"],
  [("one routine per instruction", "source/runtime/amd64_sysv.s"), ("instruction to routine table", "source/codegen/amd64/opcodes.c"),
   ("offsets shared with the code generator", "headers/kefir/codegen/amd64/system-v/runtime.h")],
  technique="abstract interpretation of the runtime's machine code over a bit-provenance/term domain, against an instruction oracle",
  note="Each routine is interpreted once for all operand values (operands are terms); immediate arguments with discrete meaning "
       "(slot numbers, block sizes, bit-field offset/width pairs) are enumerated. Floating-point instructions are terms: their "
       "rounding is the processor's.",
  observe="values computed by compiled programs")

P("C14", "No constant expression can make the compiler itself trap",
  "Whatever integers appear in a constant expression, an array size, a case label or a preprocessor condition, the compiler never "
  "performs a division or remainder by zero nor divides the most negative value by minus one on its own processor: it reports "
  "an error instead of being killed.",
  ["inputs"],
  "every division and remainder in the front end, every operand pair",
  "no test divides by zero or overflows in a constant expression",
  ["source/ast/", "source/preprocessor/", "source/ast-translator/"],
  [("constant folding", "source/ast/constants/binary_operation.c"), ("preprocessor conditions", "source/preprocessor/")],
  technique="guard (path-condition) dataflow over normalised LLVM IR",
  note="On every path into each division whose divisor is not a literal, a test excluding zero (and, for signed division, the "
       "overflowing pair) must have been taken. Divisions by layout quantities outside the front end are assumed non-zero and "
       "listed.",
  observe="termination of the compiler by SIGFPE")

TR = ["source/ast-translator/", "source/ast/analyzer/", "headers/kefir/ast-translator/"]
TECH = ("abstract interpretation of the analyser's and translator's LLVM IR over the finite domain of operand types; the emitted "
        "instruction sequence is interpreted over terms and compared with a C17 oracle")

P("C09", "Emitted code computes the value C prescribes for every operator",
  "For every unary, binary, logical, comparison, shift, pointer-arithmetic, conditional and comma operator and every combination of "
  "operand types C allows (all integer and floating types, qualified types, pointers, arrays, bit-fields), the instructions the "
  "translator emits compute, for all operand values, exactly the value the C standard prescribes: operands are promoted and "
  "converted as the usual arithmetic conversions say, signed and unsigned variants are chosen by the converted type, results wrap "
  "at the width of their type, && || and ?: evaluate only the operands they should, and the operand stack is left with exactly "
  "the result.",
  ["inputs"],
  "every operator, every pair of operand types, every operand value",
  "tests translate a few operator and type combinations; the number of combinations is in the thousands and the wrong ones differ "
  "only for particular values",
  TR, [("binary operators", "source/ast-translator/nodes/binary_operation.c"), ("unary operators", "source/ast-translator/nodes/unary_operation.c"),
       ("conditional operator", "source/ast-translator/nodes/conditional_operator.c"), ("comma", "source/ast-translator/nodes/comma_operator.c"),
       ("type conversion", "source/ast-translator/typeconv.c")],
  technique=TECH,
  note="Operand types are enumerated (about 27 operand shapes, every ordered pair per operator); operand values are universally "
       "quantified (terms). Pinned defects are recognised exactly and listed as known findings.",
  observe="values computed by compiled programs; emitted instruction list")

P("C11", "The parser accepts exactly the C17 grammar and groups operands by it",
  "For every sequence of tokens, each construct of the language (expressions of every precedence level, declarations and their "
  "specifiers, declarators and abstract declarators, initialisers and designators, structure, union and enumeration specifiers, "
  "statements, function definitions) is accepted when the C17 grammar derives it and rejected otherwise; operators group by the "
  "precedence and associativity of the grammar; and the syntax tree built for it has exactly the operator, operands and order that the "
  "production prescribes, with every token consumed and none skipped.",
  ["inputs"],
  "every grammar rule of the parser, every token sequence its alternatives and repetitions give rise to (up to the per-rule bound), "
  "every assignment of the sub-rules' results",
  "tests parse a few dozen sample programs; a wrong precedence level, a missing alternative or a swapped operand shows only for particular token sequences",
  ["source/parser/"],
  [("rules", "source/parser/rules/"), ("tree builder", "source/parser/builder.c"), ("rule dispatch", "source/parser/ruleset.c"),
   ("cursor", "source/parser/cursor.c")],
  technique="abstract interpretation of every rule function over an abstract token stream: the production it implements is extracted and compared with C17's",
  note="Every rule is interpreted with its sub-rules abstracted (each may match, not match or fail), which gives the set of token/sub-rule "
       "sequences it accepts and the tree it builds for each; this set is compared with the productions of C17 annex A up to a bound on "
       "the length per rule (repetitions beyond two or three rounds are not unrolled further). Extensions of the language that the compiler offers "
       "deliberately are listed in the oracle. Typedef-name scoping is outside this check (see DESIGN.md).",
  observe="acceptance of programs; results of compiled expressions; dumped syntax trees")

P("C13", "Constant expressions fold to the value the program would compute",
  "Wherever the compiler evaluates an expression itself (case labels, enumerators, array sizes, bit-field widths, static "
  "initialisers, _Static_assert, #if conditions), the value and kind it obtains is exactly the one C prescribes for that "
  "expression, for every operator, every combination of literal and operand types and every operand value for which C defines "
  "a result: literals keep their type and value, operands are promoted and converted by the usual arithmetic conversions, unsigned "
  "arithmetic wraps at the width of its type, signedness is chosen by the converted type, casts convert, &&, || and ?: select as in C.",
  ["inputs"],
  "every operator of constant expressions, every pair of arithmetic operand types (and pointer plus/minus integer), every operand value",
  "tests evaluate a few constants of type int; wrong conversions show only for particular types and values",
  ["source/ast/constant_expression/", "source/ast/analyzer/nodes/constant.c"],
  [("binary operators", "source/ast/constant_expression/binary_operation.c"), ("unary operators", "source/ast/constant_expression/unary_operation.c"),
   ("casts", "source/ast/constant_expression/cast_operator.c"), ("conditional", "source/ast/constant_expression/conditional_operator.c"),
   ("literals", "source/ast/constant_expression/constant.c")],
  technique="abstract interpretation of the folding code over the type domain; resulting value terms compared with the C17 conversion rules",
  note="All ordered pairs of the 16 arithmetic types and pointers per operator. The result of each path is a term over the operand values; "
       "terms are compared with the rules of C17 on a fixed family of boundary values per type, so a difference that shows at none of "
       "them is missed. Two deviations pinned by unit tests are recognised exactly and listed as known findings.",
  observe="constants in emitted assembly; acceptance of _Static_assert; selected #if groups")

P("C16", "Conversions between scalar types preserve or wrap values as C defines",
  "Every explicit cast and every implicit conversion between scalar types (all integer widths and signednesses, _Bool, float, "
  "double, long double, enumerations, pointers) produces, for every value of the source type, the value the C standard prescribes "
  "for the destination type: sign extension follows the source type, narrowing keeps exactly the destination's bits, _Bool "
  "becomes 0 or 1, and integer to floating conversion respects the source's signedness.",
  ["inputs"],
  "every ordered pair of scalar types, every value",
  "a conversion mistake between one pair of types shows only for values outside the common range",
  TR, [("conversion", "source/ast-translator/typeconv.c"), ("cast", "source/ast-translator/nodes/cast_operator.c"),
       ("normalisation", "source/ast/type_conv.c")],
  technique=TECH, note="All ordered pairs of 14+ scalar types; values are terms (universal).",
  observe="values computed by compiled programs; emitted instruction list")

P("C20", "Expressions get the type C assigns; invalid operand types are rejected",
  "For every operator and every combination of operand types, semantic analysis either assigns exactly the result type, bit-field, "
  "lvalue and constant-expression properties the C standard (with kefir's enabled extensions) prescribes, or rejects the expression "
  "as a constraint violation; it never accepts what C forbids (floating operands of %, shifts of pointers, assignment to a non-lvalue, "
  "incompatible pointers, ...) and never rejects what C allows.",
  ["inputs", "configurations"],
  "every operator and every combination of operand types",
  "tests assert the type of a few expressions",
  ["source/ast/analyzer/nodes/", "source/ast/type/", "source/ast/type_conv.c"],
  [("operator analysis", "source/ast/analyzer/nodes/*.c"), ("usual arithmetic conversions, promotions", "source/ast/type_conv.c")],
  technique="abstract interpretation of the analyser's LLVM IR over the finite domain of operand types, compared with a C17 typing oracle",
  note="Same enumeration of operand shapes as C09; extension switches off and on where the code consults them.",
  observe="error status of the compiler, type of the analysed node")

P("C25", "Assignments change exactly the designated object and yield its value",
  "Simple and compound assignment and prefix and postfix increment and decrement, for every type of left operand (including "
  "bit-fields of every width and position) and every type of right operand, store exactly once, exactly to the bits of the "
  "designated object, the value C prescribes (computed in the common type and converted to the object's type); evaluate the "
  "left operand's address once; and yield the value of the object after (before, for postfix forms) the assignment.",
  ["inputs"],
  "every assignment operator, every pair of operand types, bit-field width and offset, every value",
  "tests translate a handful of assignments with matching types",
  TR, [("assignment", "source/ast-translator/nodes/assignment_operator.c"), ("increment and decrement", "source/ast-translator/nodes/unary_operation.c"),
       ("stores", "source/ast-translator/value.c"), ("bit-fields", "source/ast/bitfields.c")],
  technique=TECH, note="Same domain as C09 plus bit-field positions; memory effects are part of the compared term.",
  observe="contents of objects and values of expressions in compiled programs")

P("C10", "Statements transfer control exactly as C prescribes, with a clean stack",
  "For every nesting of compound, if, while, do, for, switch, case, default, break, continue, goto, labelled and expression "
  "statements, the emitted code evaluates the same expressions in the same order, under the same outcomes of the controlling "
  "expressions, as the C abstract machine: loops test before or after the body as written, break and continue leave or resume "
  "exactly the innermost enclosing construct, a switch selects the label equal to the promoted controlling value (or default), "
  "goto reaches its label. Every expression is evaluated with no stale operand left on the stack by earlier statements.",
  ["inputs"],
  "every nesting of statements up to the enumerated depth, every outcome of every controlling expression",
  "tests compile a few nestings; a wrong jump shows only for particular combinations of nested statements and outcomes",
  ["source/ast-translator/nodes/", "source/ast/analyzer/nodes/", "source/ast/flow_control.c", "source/ast-translator/flow_control.c"],
  [("statement analysis", "source/ast/analyzer/nodes/*_statement.c"), ("flow control tree", "source/ast/flow_control.c"),
   ("statement translation", "source/ast-translator/nodes/*_statement.c"), ("jumps", "source/ast-translator/jump.c")],
  technique="abstract interpretation of the analyser's and translator's LLVM IR over a family of statement nests; the emitted control "
            "flow is compared path by path with a reference lowering of the C abstract machine",
  note="Nests are enumerated (about 365 shapes: every statement kind alone and inside every other, break/continue/goto/case at every "
       "level); expressions and outcomes are universally quantified; loops are followed up to a bounded number of iterations.",
  observe="order of evaluation and control flow of compiled programs; operand stack depth")

P("C28", "Calls and returns pass exactly the converted values",
  "A function call evaluates each argument exactly once and before the call, passes it converted to the parameter's type (or, beyond "
  "the prototype and without one, to its default promoted type), calls the designated function, marks variadic calls as such, and "
  "yields the returned value in the function's return type; a return statement leaves exactly the value of its expression converted "
  "to the function's return type and nothing else. Calls with too few or too many arguments or arguments that cannot be converted, "
  "and returns whose value does not fit the function, are rejected; all others are accepted.",
  ["inputs"],
  "every return type, every pair of argument and parameter type, every number of arguments, every value",
  "tests call a few functions with matching types",
  ["source/ast-translator/nodes/function_call.c", "source/ast-translator/nodes/return_statement.c", "source/ast-translator/function_declaration.c",
   "source/ast/analyzer/nodes/function_call.c", "source/ast/analyzer/nodes/return_statement.c"],
  [("call analysis", "source/ast/analyzer/nodes/function_call.c"), ("call translation", "source/ast-translator/nodes/function_call.c"),
   ("argument layouts", "source/ast-translator/function_declaration.c"), ("return", "source/ast-translator/nodes/return_statement.c")],
  technique=TECH, note="Scalar arguments and results of every type; argument counts 0 to 4 against prototypes of 0 to 3 parameters with and "
                       "without ellipsis, unprototyped functions, direct and indirect calls. Aggregates are out of scope here.",
  observe="values received by callees and callers in compiled programs; rejection of invalid programs")

P("C18", "Type identity, compatibility and composite types follow the C standard",
  "For every pair of types, the compiler's answers to 'are these the same type', 'are these compatible' and 'what is their "
  "composite type' are the ones of C17 6.2.7: both questions are symmetric and reflexive and take qualifiers, array lengths, "
  "parameter lists, prototypes versus empty lists, tags, members, bit-field widths, enumeration constants and completeness into "
  "account; the composite of two compatible types is compatible with both and keeps all the information either has (array "
  "length, prototype). Integer promotion, the usual arithmetic conversions and qualifier handling give the type C assigns. "
  "None of these operations fails or crashes on any pair of well-formed types.",
  ["inputs"],
  "every pair of types, built to any depth from basic types, pointers, arrays, functions, structures, unions and enumerations",
  "tests compare a small number of hand-picked pairs; a wrong answer for one pair accepts or rejects programs silently",
  ["source/ast/type/", "source/ast/type_conv.c", "headers/kefir/ast/type.h"],
  [("same/compatible/composite operations", "source/ast/type/*.c"), ("promotions and usual arithmetic conversions", "source/ast/type_conv.c")],
  technique="abstract interpretation of the type algebra's LLVM IR over all pairs of a generated family of types, compared with a "
            "C17 6.2.7 oracle",
  note="All ordered pairs of a generated family of types (depth <= 3); values (lengths, widths, constants) are representative.",
  observe="acceptance or rejection of redeclarations, assignments and calls; type of the analysed node")

P("C21", "Declarations give identifiers the types and kinds that C assigns",
  "For every declaration, at file scope or in a block, every declared identifier ends up as the kind of thing (object, function, "
  "type name, enumeration constant, tag) and with exactly the type that C17 6.7 assigns to its specifiers and declarator: all "
  "orders and combinations of type specifiers and qualifiers, nested pointer, array and function declarators, parameter "
  "adjustment, structure, union and enumeration members and values, bit-fields, type names, storage-class, function and alignment "
  "specifiers. A declaration which violates one of the constraints on these (impossible combinations of specifiers or storage "
  "classes, arrays of functions or of incomplete elements, functions returning arrays, members of incomplete or function type, "
  "duplicate members or parameters, bit-field widths out of range, redefined tags, objects of incomplete type) is rejected, and "
  "no valid declaration is.",
  ["inputs"],
  "every declaration, of any nesting, in every scope",
  "tests declare a few dozen identifiers; a wrong answer for one order of specifiers or one nesting silently changes sizes and conversions",
  ["source/ast/analyzer/declarator.c", "source/ast/analyzer/nodes/declaration.c", "source/ast/analyzer/nodes/init_declarator.c",
   "source/ast/analyzer/type.c", "source/ast/global_context.c", "source/ast/local_context.c"],
  [("specifiers and declarators", "source/ast/analyzer/declarator.c"), ("type constraints", "source/ast/analyzer/type.c")],
  technique="abstract interpretation of the declaration analyser's LLVM IR, with the real scope contexts, over enumerated declarations, compared with a C17 6.7 oracle",
  note="All specifier sequences up to length 3 (plus permutations and one extra specifier of the longer ones), declarators up to depth 2-3, all storage-class triples, members, tags and enumerations from a list; expressions inside declarations are opaque.",
  observe="type, storage and kind found by looking the identifier up afterwards; acceptance or rejection of the declaration")

P("C22", "Linkage, redeclaration and scope follow the C standard",
  "For every sequence of declarations of one identifier, at file scope, in blocks and in nested blocks, each declaration gets the "
  "linkage C17 6.2.2 gives it (internal, external or none, and through extern the linkage of the visible earlier declaration), the "
  "right storage duration including _Thread_local, and the composite of the types declared so far; whether the identifier is "
  "defined, tentatively defined or only declared here follows 6.9.2. A redeclaration is rejected exactly when it conflicts with an "
  "earlier one in the same scope (different kind, incompatible type, no linkage, second initialiser, _Thread_local on only some). "
  "A declaration in a block hides the outer one, and the outer one is visible again, unchanged, when the block ends.",
  ["inputs", "histories"],
  "every sequence of declarations of an identifier over nested scopes",
  "tests use two or three declarations in a few arrangements; the outcome depends on the whole history of the identifier",
  ["source/ast/global_context.c", "source/ast/local_context.c", "source/ast/identifier_scope.c", "source/ast/context.c"],
  [("file scope", "source/ast/global_context.c"), ("block scope", "source/ast/local_context.c")],
  technique="abstract interpretation of the scope contexts' LLVM IR over all pairs and many triples of enumerated declarations, compared with a C17 6.2.1/6.2.2/6.7/6.9.2 oracle",
  note="All ordered pairs of a family of 70 declarations at file scope, of its core in the block arrangements, and triples of the core.",
  observe="linkage, storage, type and definedness found by looking the identifier up after each declaration; acceptance or rejection")

P("C29", "Conditional inclusion and macro scope follow the directives of the file",
  "For every sequence of preprocessing directives and text lines, whatever the conditions evaluate to, the preprocessor passes on "
  "exactly the text C17 6.10.1 selects, in order: the first group of an #if/#ifdef/#ifndef ... #elif ... #else ... #endif chain whose "
  "condition holds, at any nesting; directives in skipped groups have no effect except for nesting. Each piece of text is "
  "macro-expanded exactly once, with precisely the macros that are defined at its line, also across #include. Conditions are "
  "evaluated only where they decide. Unbalanced or misplaced #elif, #else and #endif, an unterminated #if and an active #error are "
  "rejected, and well formed files are not. Directive lines are recognised by name, also with blanks around the #.",
  ["inputs", "programs"],
  "every sequence of directives, every outcome of its conditions",
  "tests preprocess a few files with a few nestings; a wrong group is chosen only for particular combinations of outcomes and nesting",
  ["source/preprocessor/preprocessor.c", "source/preprocessor/directives.c"],
  [("group scanner", "source/preprocessor/preprocessor.c"), ("directive scanner", "source/preprocessor/directives.c")],
  technique="abstract interpretation of the preprocessor's LLVM IR over enumerated sequences of directives with unknown conditions, every path compared with a C17 6.10 oracle",
  note="All sequences of conditional directives up to 5 lines (6 in thorough), well formed groups with definitions, other directives and includes in fixed arrangements, a deep nesting with every single-line edit. Expansion itself is opaque.",
  observe="token sequence passed on by the preprocessor, acceptance or rejection")

P("C40", "A compiled program behaves as the C abstract machine says, end to end",
  "For every strictly conforming program, the executable obtained from kefir's output behaves as the C abstract machine "
  "prescribes: the composition of all stages preserves meaning.",
  ["inputs"], "every conforming program and every input of it", "tests compile a few dozen programs",
  ["source/"], [("whole pipeline", "source/")],
  na="The composition quantifies over unbounded programs and their run-time values; a static argument would be a full compiler "
     "correctness proof. The stage-wise properties (C08-C11, C13, C16, C18, C20, C25, C28) are what static analysis can decide.")

P("C41", "kefir compiled by kefir emits what kefir compiled elsewhere emits",
  "Bootstrapping reaches a fixed point: every stage's compiler emits identical assembly for every input.",
  ["inputs", "configurations"], "every input of the bootstrapped compiler", "the bootstrap test compares on one input",
  ["source/"], [("bootstrap build", "Makefile, bootstrap.sh")],
  na="Needs the generated compiler to be executed; its truth follows from C40, which is not statically decidable here.")

P("C42", "Macro expansion yields exactly the token sequence C prescribes",
  "For every set of macro definitions and every invocation, the expanded token sequence is the one of C17 6.10.3, including "
  "rescanning, painting, stringification and pasting.",
  ["inputs"], "every macro set and invocation", "tests expand a few dozen macros",
  ["source/preprocessor/"], [("expansion", "source/preprocessor/macro.c, source/preprocessor/user_macro.c")],
  na="Expansion is an unbounded rewriting process over token buffers whose contents are run-time data; no finite abstraction of "
     "buffers in reach distinguishes a right from a wrong expansion. Failure handling in this code is covered by C01/C02.")

P("C43", "Every compilation terminates, with memory proportional to its work",
  "For every finite input the compiler terminates, and everything it allocated is released when its contexts are freed.",
  ["inputs", "histories"], "every input", "tests run under no leak or time bound per path",
  ["source/"], [("all loops and recursion", "source/**/*.c"), ("ownership of nodes and types", "source/ast, source/ir")],
  na="Termination depends on well-founded measures over run-time structures (token buffers, scopes, lists); leak freedom needs "
     "heap-shape reasoning about containers with stored destructors. Only the failure-path double frees (C02) are decidable "
     "with the ownership summaries at hand.")

P("C44", "Container invariants: trees stay ordered and balanced, lists consistent",
  "After any sequence of insertions and removals, hash tables, trees and lists contain exactly the inserted, not removed, "
  "elements, and lookups find them.",
  ["histories"], "every sequence of operations", "unit tests run short fixed sequences",
  ["source/core/"], [("containers", "source/core/tree.c, source/core/hashtree.c, source/core/list.c, source/core/blocktree.c")],
  na="A shape invariant over unbounded linked heap structures; no shape analyser is available offline and the term domain here "
     "cannot represent unbounded lists or trees. Assumed by the other checks.")
