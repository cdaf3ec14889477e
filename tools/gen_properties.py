#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property's text changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["exit status and output of the compiled program"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Integer operators compute the value C defines, in every operand form",
  "For every integer operator and every pair of integer operand types, compiled code computes exactly the value (and type) that C's promotions and usual arithmetic conversions define on x86-64 LP64, for all operand values for which it is defined. The result does not depend on whether an operand is a constant, a parameter, a local, a global, a dereferenced pointer, an array element or a struct member, nor on whether the result is used as a value, stored, or used as a branch condition.",
  ["programs", "inputs"], "all (operator, type, type, operand form, use) combinations, all operand values",
  "The torture tests sample one operand form and a handful of values; each instruction-selection rule is reached only by particular size/sign/constant combinations.",
  ["parser.c", "instrrules.c", "instrsel.c", "instrutil.c", "ssa.c", "codegen.c", "constexpr.c"],
  [("type of an operation", "parser.c operation_type/arithmetic_operation"), ("strength reduction", "ssa.c optimize_integer_arithmetic_operation"), ("pattern rules", "instrrules.c"), ("tiling", "instrsel.c")])

p("C02", "Floating-point arithmetic and conversions follow IEEE formats",
  "For float, double and long double, every arithmetic operator, comparison, negation, truth test and every conversion to and from every integer and floating type yields the IEEE-754/x87 extended result that C on x86-64 defines, including signed zeros, infinities, NaNs and extreme magnitudes. The result is the same whether operands are constants or run-time values.",
  ["programs", "inputs"], "all operators, all ordered type pairs, all (in-range for float-to-int) values",
  "Tests use small round values; NaN/infinity/negative-zero and boundary conversions select different code (unordered compares, unsigned 64-bit fixups).",
  ["parser.c", "instrrules.c", "ssa.c", "codegen.c", "constexpr.c", "ir.c"],
  [("type changes", "parser.c long_double/double/float_type_change"), ("fp rules", "instrrules.c"), ("fp arithmetic optimization", "ssa.c optimize_floating_point_arithmetic_operation"), ("fp literals", "codegen.c")])

p("C03", "Constant expressions have the value and type the same run-time code has",
  "Wherever C requires a constant expression (static initializers, enumerators, array bounds, bit-field widths, case labels) and wherever the compiler folds constants on its own, the value and type obtained equal those of the same expression evaluated at run time. Every valid constant expression is accepted, unevaluated operands are not evaluated, and invalid ones are diagnosed.",
  ["programs"], "all constant expressions up to a nesting depth over all operators, types and boundary literals",
  "Folding is a second implementation of C arithmetic (constexpr.c) with its own typing; tests touch a few operators with small ints.",
  ["constexpr.c", "parser.c", "instrsel.c"],
  [("constant evaluator", "constexpr.c"), ("folding in trees", "instrsel.c merge_constants"), ("initializers", "parser.c add_initializer")])

p("C04", "Each operand is evaluated exactly when and as often as C says",
  "In any expression built from the C operators, each operand that C says is evaluated is evaluated exactly once and no other is, side effects are complete at sequence points (&&, ||, ?:, comma, call, full expression), and the value of the whole expression is the one C defines for its precedence and associativity, however deeply it nests.",
  ["programs", "inputs"], "all expression trees up to a size over all operators, all truth values of their leaves",
  "The number of expression shapes grows exponentially with size; the tests hold a few dozen of them.",
  ["parser.c", "instrsel.c", "ir.c"],
  [("precedence climbing", "parser.c parse_expression"), ("short circuit", "parser.c and_or_expr"), ("ternary", "parser.c parse_ternary_expression"), ("tree merging", "instrsel.c make_igraphs")])

p("C05", "Statements transfer control exactly as C defines",
  "For every program built from if/else, while, do, for, switch/case/default, break, continue, goto, labels and return, nested in any way, the sequence of statements executed for every outcome of its conditions is the one C defines.",
  ["programs", "inputs"], "all statement trees up to a size, all sequences of condition outcomes up to a length",
  "Loop and switch tests each cover one nesting; interactions (continue inside switch inside do, jumps into blocks, fallthrough into default) are combinatorial.",
  ["parser.c", "ir.c", "ssa.c"],
  [("loop and switch parsing", "parser.c parse_iteration_statement/parse_switch_statement"), ("goto back-patching", "parser.c backpatch_gotos"), ("label merging", "ir.c merge_consecutive_labels")])

p("C06", "Variables keep their values through any control flow and register pressure",
  "In any control-flow graph and with any number of simultaneously live variables, every read of a variable yields the value most recently assigned to it on the path executed, across loops, joins, calls, copies and swaps between variables. This holds for integer, pointer and floating variables and for parameters.",
  ["programs", "inputs"], "all control-flow graphs and assignment patterns up to a size, all paths up to a length, all live-variable counts up to well beyond the register files",
  "SSA construction, live-range coalescing, colouring and spilling interact with graph shape; lost-copy/swap and spill cases appear only for particular graphs, and the tests check the analyses on a few textbook graphs.",
  ["ssa.c", "regalloc.c", "instrsel.c", "graph.c", "set.c", "longset.c"],
  [("phi insertion and renaming", "ssa.c insert_phi_functions/rename_phi_function_variables"), ("live ranges and coalescing", "ssa.c make_live_ranges/coalesce_live_ranges"), ("colouring", "regalloc.c allocate_registers_top_down"), ("spilling", "instrsel.c add_spill_code")])

p("C07", "Code-generation options never change what a program does",
  "For every program with defined behaviour, every combination of the optimization-related options (-fno-live-range-coalescing, -fspill-furthest-liveness-end, -fno-dont-spill-short-live-ranges, -fno-optimize-arithmetic, -fno-vreg-renumbering, -O<n>, -g, -fPIC) compiles it to code with the same observable behaviour.",
  ["programs", "configurations"], "all combinations of the options, over an enumerated family of programs",
  "The tests compile everything with the default options only.",
  ["main.c", "ssa.c", "regalloc.c", "instrsel.c", "codegen.c", "ir.c"],
  [("option flags", "main.c, wcc.h opt_*"), ("arithmetic optimization", "ssa.c"), ("spill choice", "regalloc.c")])

p("C08", "Calls interoperate with other compilers for every signature",
  "For every fixed parameter list and return type (integers, pointers, floats, long doubles, structs and unions of every classification), a caller and a callee agree on all argument and return values whichever of the two was compiled by wcc and whichever by another System V x86-64 compiler. This includes calls through function pointers and arguments that are themselves calls.",
  ["programs"], "all signatures up to a length over one representative of every argument class, in both directions",
  "test-abi fixes about 200 signatures; register exhaustion, mixed SSE/INTEGER structs and stack alignment depend on the whole preceding list.",
  ["functions.c", "parser.c", "types.c", "regalloc.c"],
  [("parameter classification", "functions.c add_function_param_to_allocation"), ("argument moves", "functions.c add_function_call_arg_moves"), ("parameter moves", "functions.c add_function_param_moves"), ("return moves", "functions.c add_function_return_moves")])

p("C09", "Variadic functions receive every argument that was passed",
  "For every sequence of variadic argument types, va_start/va_arg/va_copy/va_end in wcc-compiled code deliver exactly the values passed, after the default promotions, whichever compiler built the caller, and wcc-compiled callers pass what other compilers' va_arg reads. Splitting the traversal with va_copy or passing the va_list on does not change it.",
  ["programs"], "all argument sequences up to a length over all variadic argument classes, after any number of fixed parameters",
  "The register save area/overflow area switch happens at positions that depend on everything passed before.",
  ["functions.c", "parser.c", "include/stdarg.h", "internals.h"],
  [("va_arg", "functions.c process_function_va_arg"), ("va_start", "functions.c process_function_va_start"), ("al count", "functions.c / instrsel")])

p("C10", "Type layout equals the System V x86-64 layout",
  "For every object type, sizeof, alignment, member offsets and the bit positions of bit-fields equal those of the System V x86-64 ABI, for nested, anonymous, packed, aligned and union types and for arrays of them, so that objects can be shared with code from other compilers.",
  ["programs"], "all member sequences up to a length over all member kinds and bit-field widths, with nesting",
  "Tests fix some dozens of layouts; the offset of each member depends on all earlier ones.",
  ["types.c", "parser.c"],
  [("struct completion", "types.c recursive_complete_struct_or_union"), ("alignment", "types.c get_type_alignment"), ("anonymous members", "types.c flatten_anonymous_structs")])

p("C11", "Bit-field accesses read and write exactly their own bits",
  "Writing any bit-field stores the value reduced to its width and leaves every other bit of the object unchanged; reading yields the stored value with the right sign and type; compound assignment, increment, decrement, initialization and passing of bit-fields behave accordingly, wherever the object lives.",
  ["programs", "histories"], "all bit-field layouts up to a size, all sequences of accesses up to a length, boundary values",
  "A wrong mask or shift shows only for particular width/offset/storage-unit combinations and particular neighbours.",
  ["ir.c", "parser.c", "types.c"],
  [("load", "ir.c add_load_bit_field"), ("save", "ir.c add_save_bit_field"), ("type", "parser.c load_bit_field")])

p("C12", "Struct and union copies move every byte of the object and no other",
  "Assigning, initializing from, passing, returning or indexing a struct or union of any size and alignment copies all of its members, and changes no byte outside the destination object; distinct objects stay distinct.",
  ["programs"], "all object sizes up to a bound, all copy forms and storage classes",
  "Copies are split into register moves or memcpy by size; each size and alignment produces a different sequence.",
  ["ir.c", "functions.c", "parser.c"],
  [("copies", "ir.c add_memory_copy*"), ("zeroing", "ir.c add_zero_memory_instructions")])

p("C13", "Initializers give every scalar and byte the value C defines",
  "For every object type and every valid initializer (full or partial braces, elided braces, strings, nested aggregates, unions, addresses with offsets), each scalar receives the value C defines and the rest is zero, for static and automatic objects alike, and an array of unknown size gets the right length.",
  ["programs"], "all (type, initializer shape) pairs up to a size, in each storage class",
  "Brace elision interacts with the whole type tree; tests enumerate some 600 fixed cases.",
  ["parser.c", "types.c", "codegen.c"],
  [("initializer parsing", "parser.c parse_initializer"), ("type iterator", "types.c type_iterator_*"), ("data emission", "codegen.c output_symbol")])

p("C14", "Assignment operators and pointer arithmetic update exactly the designated object",
  "Simple and compound assignment, prefix and postfix ++ and --, and pointer addition, subtraction, indexing and comparison, applied to any modifiable lvalue of any scalar type, compute the value C defines, convert it to the lvalue's type, store it in that object only, evaluate the lvalue once, and yield the value C defines.",
  ["programs", "inputs"], "all (operator, lvalue form, lvalue type, right operand type) combinations and boundary values",
  "Lvalue forms times types times operators is large; tests use int and pointers in a few forms.",
  ["parser.c", "instrrules.c", "ir.c", "ssa.c"],
  [("compound assignment", "parser.c prep_comp_assign/finish_comp_assign"), ("inc/dec", "parser.c parse_expression"), ("pointer scaling", "parser.c parse_addition/parse_subtraction")])

p("C15", "Declarations give each name the type C's declarator grammar defines",
  "For every combination of declaration specifiers (in any order) and every declarator built from pointers, arrays, functions, parentheses and qualifiers, the declared object, typedef, parameter, cast or sizeof operand has the type C defines: sizes, element strides, dereference and call results agree, and assignments between equal types raise no diagnostic.",
  ["programs"], "all specifier multisets and orders, all declarators up to a nesting depth",
  "The declarator grammar is recursive; tests sample some dozens of declarators.",
  ["parser.c", "types.c", "scopes.c"],
  [("declarators", "parser.c parse_declarator/parse_direct_declarator"), ("specifiers", "parser.c parse_declaration_specifiers"), ("type composition", "parser.c concat_types; types.c composite_type")])

p("C16", "Every identifier use resolves to the declaration in scope; statics persist",
  "For every arrangement of nested scopes, each use of an identifier, tag, typedef name, enumerator, label or member denotes the declaration C's scope and name-space rules select. Automatic objects are distinct per block and per (recursive) call, and static objects keep one value across calls and are initialized once.",
  ["programs"], "all nestings of scopes and redeclarations up to a size, over all kinds of identifier",
  "Shadowing combinations (typedef by variable, tag by tag, parameter by block, extern in block) are combinatorial; tests hold a few.",
  ["scopes.c", "parser.c", "lexer.c"],
  [("scope stack", "scopes.c"), ("typedef lookup in the lexer", "lexer.c next"), ("block declarations", "parser.c parse_declaration")])

p("C17", "Linkage and storage match C for every sequence of declarations",
  "For every valid sequence of file-scope and block-scope declarations of an identifier, the object file defines, exports, imports or keeps local that symbol as C's linkage and tentative-definition rules say, with the right size, section and value, so that separately compiled units link and share objects; conflicting sequences are rejected.",
  ["programs", "histories"], "all declaration sequences up to a length over all storage classes, initialized or not",
  "The outcome depends on the whole sequence of redeclarations; tests hold a handful.",
  ["parser.c", "codegen.c", "types.c"],
  [("redeclaration", "parser.c redefined_symbol_linkage/parse"), ("emission", "codegen.c output_symbol/output_code")])

p("C18", "Constraint violations are rejected, valid programs are accepted",
  "A program that violates a C89 constraint the compiler checks (types of operands, assignment to const or rvalues, undeclared or redeclared names, bad calls, misplaced break/continue/case, incomplete types and so on) is rejected with a located message and a non-zero exit, leaving no output claimed as good; and a valid program is never rejected. The verdict does not depend on unrelated surrounding code.",
  ["programs"], "all pairs of (operator or statement, operand types) from a type alphabet that C accepts or rejects",
  "test-errors checks 71 single cases; accept/reject verdicts for all type combinations are not tested.",
  ["parser.c", "types.c", "error.c", "constexpr.c"],
  [("operand checks", "parser.c check_*"), ("compatibility", "types.c types_are_compatible"), ("errors", "error.c")],
  ["exit status and standard error of wcc"])

p("C19", "Macro replacement produces the token sequence the standard defines",
  "For every set of object-like and function-like macro definitions and every invocation, the preprocessor's output is the token sequence C defines: argument pre-expansion, # and ##, rescanning, and no re-expansion of a macro within its own expansion. The spelling in the output keeps separate tokens separate.",
  ["programs"], "all macro definition sets and invocation texts up to a size over a small token alphabet",
  "Hide sets, empty arguments, nested and recursive invocations interact; the tests compare some 30 fixed files.",
  ["cpp.c", "strmap.c", "strset.c"],
  [("expand/subst (Prosser)", "cpp.c expand, subst, glue, stringize, hsadd"), ("token spacing", "cpp.c need_token_space")],
  ["output of wcc -E"])

p("C20", "Conditional directives select exactly the groups C selects",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #else, #endif, #define and #undef (including text that merely looks like a directive) exactly the groups C selects are processed and the others have no effect; #if expressions are evaluated in (unsigned) long arithmetic with C's rules, and malformed conditionals are diagnosed.",
  ["programs"], "all directive sequences up to a length, all #if expressions up to a depth",
  "Nesting and skip state form a state machine over directive sequences of which tests visit few paths.",
  ["cpp.c", "constexpr.c"],
  [("conditional stack", "cpp.c parse_directive/enter_if"), ("#if expressions", "cpp.c parse_conditional_expression")],
  ["output and exit status of wcc -E"])

p("C21", "Line and file positions are right everywhere they surface",
  "After any combination of line splices, comments, multi-line macro calls, conditionals, includes and #line directives, __LINE__ and __FILE__, the position in every diagnostic, the line markers of -E and the -g line table name the presumed file and line of the source text concerned.",
  ["programs"], "all sequences up to a length of line-affecting constructs, with each position consumer",
  "The line map is updated incrementally by every construct; tests check a few constructs singly.",
  ["cpp.c", "lexer.c", "error.c", "codegen.c"],
  [("line map", "cpp.c strip_backslash_newlines/advance_ip"), ("line markers", "cpp.c output_line_directive"), ("debug loc", "codegen.c output_debug_loc")],
  ["-E output", "standard error of wcc", "decoded line table"])

p("C22", "Lexical elements have the value and type C gives them",
  "For every integer, floating, character and string literal (all bases, suffixes, escapes, wide forms, concatenations, splices, comments and, with --trigraphs, trigraphs) the compiled constant has the value and type C defines, and adjacent characters are split into the longest tokens.",
  ["programs", "inputs"], "all spellings up to a length from the lexical grammar",
  "Boundary values choose the literal's type; escapes combine; tests sample.",
  ["lexer.c", "cpp.c", "codegen.c"],
  [("lexer", "lexer.c next"), ("escapes", "lexer.c lex_single_string_literal"), ("string emission", "codegen.c fprintf_escaped_string_literal")])

p("C23", "No input makes the compiler crash, hang or corrupt memory",
  "For every input text, well-formed or not, wcc terminates in bounded time with exit status 0 or 1, printing a diagnostic when it fails; it never dies from a signal, reads or writes out of bounds, or uses freed memory.",
  ["inputs"], "all short token sequences, in every syntactic context, and all single-token edits of valid programs",
  "Tests feed valid programs and 71 chosen errors; the invalid input space is unbounded.",
  ["lexer.c", "cpp.c", "parser.c", "types.c", "constexpr.c", "codegen.c"],
  [("errors", "error.c error/panic"), ("expect/consume", "lexer.c")],
  ["exit status and standard error of wcc"])

p("C24", "A failing resource never yields a success claim or a bad output",
  "If any memory allocation, file open, read or write, or the assembler or linker fails at any point, the compiler exits with a non-zero status (or still produces the correct output); it never exits 0 with a missing, truncated or wrong output file.",
  ["fault_sequences"], "every single fault position, over all external operations of a compilation, in every mode",
  "Tests run with a healthy environment only.",
  ["main.c", "memory.c", "codegen.c", "cpp.c"],
  [("allocation wrappers", "memory.c"), ("output", "codegen.c output_code; cpp.c preprocess_to_file"), ("subprocess status", "main.c main")],
  ["exit status of wcc and the files it leaves"])

p("C25", "Every command line runs the documented stages and writes only its outputs",
  "For every combination of -E, -S, -c, link mode, -o, -D, -I, -l, -L, -shared and input kinds (.c, .s, .o), the driver runs the documented stages on the right files, writes exactly the documented output files, leaves no other file behind, and exits 0 exactly when every stage succeeded.",
  ["configurations"], "all command lines up to a length over all options and input kinds",
  "The Makefiles use three or four fixed command lines.",
  ["main.c", "cpp.c"],
  [("option parsing and stages", "main.c main"), ("include search", "cpp.c open_include_file")],
  ["exit status of wcc and the directory contents afterwards"])

p("C26", "Compiling files together equals compiling each on its own",
  "When one command compiles several source files, the code for each is the same as if it had been compiled alone, whatever the other files declare, define, include or leave undefined and in whatever order they come.",
  ["histories"], "all sequences up to a length over an alphabet of translation units that touch every piece of global compiler state",
  "Compiler state is global and re-initialized per unit; the tests compile one unit per process.",
  ["main.c", "wcc.c", "cpp.c", "parser.c", "scopes.c", "lexer.c", "codegen.c", "ir.c", "types.c"],
  [("per-unit init/free", "wcc.c init_memory_management_for_translation_unit/compile"), ("directives", "cpp.c init_directives/free_directives")],
  ["assembly output"])

p("C27", "The compiler is a deterministic function, leaks nothing, and reproduces itself",
  "The output for a given input is byte-identical on every run and independent of memory layout and environment; a successful compilation frees all it allocated; and the compiler built by wcc itself produces byte-identical output to the compiler built by the host compiler, for every input.",
  ["programs", "configurations"], "all programs of the enumerated families, with perturbed allocation contents and addresses",
  "The self-compilation test compares outputs on wcc's own sources only, and leaks are checked on those only.",
  ["memory.c", "wcc.c", "main.c", "ssa.c", "instrsel.c"],
  [("allocation accounting", "memory.c process_memory_allocation_stats"), ("hash-ordered iteration", "longmap.c, strmap.c")],
  ["assembly output", "exit status with --fail-on-leaked-memory"])

p("C28", "Preprocessing separately (-E) then compiling changes nothing",
  "For every program, compiling the output of wcc -E yields the same code as compiling the program directly, and preprocessing that output again reproduces the same tokens.",
  ["programs"], "all texts of the enumerated preprocessor and program families",
  "The tests compare a few -E outputs textually (one of them re-preprocessed).",
  ["cpp.c", "lexer.c"],
  [("output rendering", "cpp.c append_tokens_to_string_buffer"), ("line markers re-read", "cpp.c parse_directive, lexer.c next")],
  ["assembly output of both routes"])

p("C29", "Position-independent code and shared libraries behave like static code",
  "Code compiled with -fPIC, linked into an executable or a shared library (in any mix with non-wcc objects), accesses functions, variables, arrays, struct members, statics and string literals by value and by address with the same results as non-PIC code, and address identity of functions and objects is preserved across the library boundary.",
  ["programs", "configurations"], "all (symbol kind, linkage, access form) combinations, all placements of definition and use across executable and library",
  "test-shlib fixes one library and one main program.",
  ["ir.c", "codegen.c", "instrrules.c"],
  [("GOT loads", "ir.c add_PIC_load_and_saves"), ("symbol rendering", "codegen.c render_x86_operation")])

p("C30", "Every function obeys the machine-level call discipline",
  "On every path through every compiled function, callee-saved registers, the stack pointer, the direction flag and x87/SSE control state are preserved for the caller, the x87 stack is left as the ABI requires, the stack is 16-byte aligned at every call, and no memory outside the function's own frame, arguments and designated objects is written.",
  ["programs", "inputs"], "all functions of the enumerated families, all paths",
  "Tests observe values, not the register and stack state around calls, and gcc -O0 callers rarely keep values in callee-saved registers.",
  ["codegen.c", "regalloc.c", "functions.c", "instrsel.c"],
  [("prologue/epilogue", "codegen.c add_final_x86_instructions"), ("stack adjustment", "codegen.c merge_rsp_func_call_add_subs"), ("clobbers", "ssa.c make_interference_graph")],
  ["register and stack state around calls in the running program"])

p("C31", "The compiler's containers behave as the sets, maps and lists they stand for",
  "For every sequence of operations, the string map, integer map, sets, list, stack and string buffer return what the corresponding mathematical map, set, sequence or stack would, including through growth, deletion, re-insertion, copying and iteration.",
  ["histories"], "all operation sequences up to a length over colliding and non-colliding keys",
  "Unit tests run one scripted history per container; growth, tombstones and probing chains depend on the history.",
  ["strmap.c", "longmap.c", "strset.c", "longset.c", "set.c", "list.c", "stack.c", "utils.c", "graph.c"],
  [("open addressing", "strmap.c, longmap.c"), ("bit/byte sets", "set.c"), ("growth", "list.c resize_list")],
  ["return values of the container API"])

p("C32", "The shipped headers describe the implementation",
  "The macros and types in the headers that come with the compiler (limits.h, stddef.h, stdarg.h) and the predefined macros agree with the compiler's actual types: each limit is the true extreme value with the right type, each typedef has the type of the expression it stands for, and system headers can be included in any order or repeatedly together with them.",
  ["programs", "configurations"], "all macros and types defined by the shipped headers, all orders and repetitions of header inclusion up to a length",
  "No test includes limits.h or checks the headers' values.",
  ["include/limits.h", "include/stddef.h", "include/stdarg.h", "cpp.c"],
  [("headers", "include/"), ("search order", "cpp.c BUILTIN_INCLUDE_PATHS")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
