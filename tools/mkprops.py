#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Integer expressions compute the value C17 defines",
  "For every well-defined C expression over the integer types (_Bool, char, signed/unsigned char, short, int, long, long long and their unsigned forms, enumerations), the code produced by the compiler computes exactly the value and type that C17 and the x86-64 data model define, including promotions, usual arithmetic conversions, casts, shifts, division, remainder, comparisons, logical and conditional operators, and simple, compound, prefix and postfix assignment. Every object that is assigned holds the converted value and no other object changes.",
  ["programs", "inputs"], "all UB-free integer expressions of any shape over all operand types and all operand values, with run-time operands",
  "tests/operands.c, assignment_operators.c, rvalue_conversion.c and integer_sizes.c evaluate a few fixed expressions with small values; the cross product of operator x type pair x boundary value x nesting is never sampled.",
  ["src/parser/expression.c", "src/parser/expression_to_ir.c", "src/codegen/codegen.c", "src/codegen/binary_operators.h", "src/codegen/registers.c", "src/ir/ir.c"],
  [("usual arithmetic conversions", "src/parser/expression.c get_arithmetic_type/convert_arithmetic/do_integer_promotion"), ("operator to IR selection", "src/parser/expression_to_ir.c ir_from_type_and_op"), ("instruction table", "src/codegen/binary_operators.h codegen_asm_table")],
  ["values passed by the generated program to an external observer function"])

p("C02", "Floating-point expressions follow IEEE-754 and C17 conversions",
  "For every well-defined expression over float and double (mixed freely with integer types), the compiled code yields bit-for-bit the IEEE-754 result that C17 Annex F defines: arithmetic, negation, comparisons including NaN, infinities and signed zero, truth value, conversions between every integer type and float/double, and decimal or hexadecimal floating constants. long double is outside the supported language.",
  ["programs", "inputs"], "all UB-free float/double expressions and conversions over all finite, infinite, NaN, subnormal and signed-zero operands",
  "tests/floating_point.c checks a couple of dozen fixed values; comparisons with NaN, unsigned 64-bit conversions and compound assignments with mixed types are outside what it reaches.",
  ["src/codegen/codegen.c", "src/codegen/binary_operators.h", "src/arch/x64.c", "src/parser/expression_to_ir.c", "src/ir/operators.c"],
  [("float casts", "src/codegen/codegen.c IR_FLOAT_CAST/IR_INT_FLOAT_CAST/IR_UINT_FLOAT_CAST/IR_FLOAT_INT_CAST"), ("SSE instruction table", "src/codegen/binary_operators.h BINARY_*_FLT"), ("constants", "src/arch/x64.c floating_point_constant_from_string")],
  ["bit patterns passed by the generated program to an external observer function"])

p("C03", "Constant expressions have the value and type of run-time evaluation",
  "Every well-defined constant expression evaluated by the compiler (enumerators, array bounds, case labels, bit-field widths, static initialisers, _Static_assert, folded sub-expressions, sizeof/_Alignof, address constants) has exactly the value and type that evaluating the same expression at run time gives. Integer constants in every base and suffix, and character constants, have the value and the type C17 assigns them.",
  ["programs", "inputs"], "all integer and floating constant expressions built from literals of every base, suffix, type and magnitude",
  "tests/constant.c, integer_constants.c and static_assert.c check a fixed list; agreement between the folder and generated code is a relation over all operators, types and values.",
  ["src/ir/operators.c", "src/arch/x64.c", "src/parser/expression.c"],
  [("folding", "src/ir/operators.c operators_constant/operators_constant_unary"), ("constant casts", "src/arch/x64.c constant_cast/simple_cast/constant_normalize"), ("literal typing", "src/arch/x64.c integer_constant_from_string")],
  ["values, sizes and _Generic types reported by the generated program; acceptance of _Static_assert"])

p("C04", "Control flow executes exactly the statements C17 prescribes, in order",
  "For every program built from if/else, switch (with any case order, fall-through, default position, nested blocks), while, do, for, break, continue, goto, labels, return, recursion, &&, ||, ?: and the comma operator, the sequence of side effects of the compiled program is the one C17 prescribes: each executed the right number of times, in the right order, and nothing else. This holds whatever the values of live variables carried around loops and across branches.",
  ["programs", "inputs"], "all terminating UB-free programs over the statement grammar, of any nesting",
  "tests/goto.c, switch.c, sequencing.c and conditional.c hold a handful of shapes; loop-carried values, irreducible gotos and nested switches combine without bound.",
  ["src/parser/function_parser.c", "src/ir/ir.c", "src/ir/dominator_tree.c", "src/ir/global_code_motion.c", "src/optimize/mem2reg.c", "src/optimize/peephole.c", "src/optimize/remove_dead.c", "src/codegen/codegen.c"],
  [("statement lowering", "src/parser/function_parser.c"), ("SSA construction over memory state", "src/ir/ir.c read_state/add_phi_operands"), ("phi copies and block order", "src/codegen/codegen.c codegen_phi_node/codegen_block")],
  ["ordered log of calls to an external observer"])

p("C05", "Optimisation never changes behaviour",
  "Rewriting a program in ways that defeat or enable the compiler's register promotion, dead-code removal and code motion - taking the address of locals, making them volatile or static, wrapping statements in extra blocks or always-true conditions, splitting expressions through temporaries, adding unused computations - never changes the values it computes. Variables keep their latest assigned value across branches, loops, calls and gotos, however their live ranges overlap.",
  ["programs"], "all UB-free programs and all such meaning-preserving rewritings of them",
  "tests/optimizer.c is one fixed program; the relation quantifies over all programs and their rewritings.",
  ["src/optimize/mem2reg.c", "src/optimize/remove_dead.c", "src/optimize/peephole.c", "src/ir/global_code_motion.c", "src/ir/ir.c", "src/codegen/codegen.c"],
  [("promotion of allocations", "src/optimize/mem2reg.c try_remove_alloc/recursive_find"), ("dead node removal", "src/optimize/remove_dead.c"), ("scheduling", "src/ir/global_code_motion.c schedule_late; src/ir/ir.c local scheduling")],
  ["final values of all variables and the observer log, for a program and its rewritings"])

p("C06", "Types have the platform ABI's size, alignment and layout",
  "For every object type (scalars, pointers, arrays, nested structs and unions, anonymous members, flexible array members, bit-fields, packed structs), sizeof, _Alignof, offsetof of every member and the bit positions of every bit-field equal those of the x86-64 System V ABI as implemented by gcc, so that data can be exchanged with code built by the system compiler. Objects are placed in memory at addresses that satisfy their alignment, including _Alignas requests.",
  ["programs"], "all struct/union/array/bit-field/packed type definitions of any nesting",
  "tests/sizeof.c, offsetof.c, bitfields.c and attribute_packed.c hold a few declarations; mixtures of bit-field types, zero-width fields, packing and nesting are unbounded.",
  ["src/arch/x64.c", "src/types.c", "src/parser/declaration.c", "src/abi/sysv.c"],
  [("layout", "src/arch/x64.c calculate_offsets/calculate_size/calculate_alignment"), ("struct parsing", "src/parser/declaration.c parse_struct")],
  ["sizeof/_Alignof/offsetof values and the bytes of an object after writing one member"])

p("C07", "Reads and writes of objects touch exactly the designated bytes",
  "Reading, assigning, copying, passing through pointers and compound-assigning any sub-object (array element, struct or union member, bit-field, whole struct of any size, pointee reached by any pointer arithmetic) yields or stores exactly the C17-defined value and leaves every other member, bit-field, element and neighbouring object unchanged. A store is visible through every alias of the same object.",
  ["programs", "histories"], "all UB-free sequences of loads and stores through any access path on any generated type",
  "tests/bitfields.c, pointer_arithmetic.c, array_pass.c sample a few paths with fixed data.",
  ["src/parser/expression_to_ir.c", "src/ir/ir.c", "src/codegen/codegen.c", "src/codegen/registers.c"],
  [("bit-field access", "src/ir/ir.c ir_get_bits/ir_set_bits"), ("copies", "src/codegen/codegen.c codegen_memcpy; src/parser/expression_to_ir.c assign_ee_to_ee"), ("pointer arithmetic", "src/parser/expression_to_ir.c evaluate_pointer_arithmetic")],
  ["byte images of all objects after each step"])

p("C08", "Initialisers give every member its C17 value, static or automatic",
  "For every object type and every valid initialiser (nested or flat braces, designators of members, elements and nested paths, overriding, partial lists, string literals, compound literals, address constants, unknown-size arrays), the object starts with exactly the value C17 defines: named members get their (converted) initialiser, all other members are zero. The same initialiser gives the same members whether the object has static or automatic storage or is a compound literal.",
  ["programs"], "all types and all valid initialisers for them, in static and automatic storage",
  "tests/initializers.c and compound_literals.c contain a fixed set of forms; brace elision and designator interplay is combinatorial.",
  ["src/parser/declaration.c", "src/codegen/rodata.c", "src/ir/ir.c"],
  [("initialiser parsing", "src/parser/declaration.c parse_initializer*"), ("static data", "src/codegen/rodata.c"), ("automatic data", "src/ir/ir.c ir_init_ptr/ir_init_var_recursive")],
  ["member values (and relocated pointers) read back by the generated program, and sizeof of completed arrays"])

p("C09", "Calls interoperate with the System V ABI in both directions",
  "For every function signature over the supported types (integers, pointers, float, double, structs and unions of any size and class, any number of parameters), code compiled by this compiler can call and be called by code compiled by gcc: every argument and the return value arrive intact. Callee-saved registers and the stack pointer are preserved across compiled functions, and the stack is 16-byte aligned at every call.",
  ["programs", "inputs"], "all non-variadic signatures, argument values and call-nesting patterns",
  "tests/calling.c and callback.c are compiled wholly by one compiler, so caller and callee can agree on a wrong convention, and only a few signatures occur.",
  ["src/abi/sysv.c", "src/arch/calling.c", "src/codegen/codegen.c"],
  [("classification", "src/arch/calling.c classify"), ("argument placement", "src/abi/sysv.c get_calling_convention/sysv_expr_call/sysv_expr_function"), ("return", "src/abi/sysv.c sysv return path")],
  ["argument bytes seen by a gcc-compiled callee/caller, callee-saved registers and %rsp before and after"])

p("C10", "Variadic calls and va_list deliver every argument in order",
  "For every variadic call, va_start/va_arg/va_copy/va_end in the callee yield the promoted arguments in order and with their exact values, for any number and mix of integer, pointer, double and struct arguments and any number of named parameters, whether caller or callee (or a va_list consumer it is passed to) was compiled by this compiler or by gcc. va_copy duplicates the position reached, and a va_list passed to another function continues from there.",
  ["programs", "inputs"], "all variadic signatures, argument mixes and va_list usage histories",
  "tests/variadic_functions.c fixes a few argument lists; register exhaustion and struct arguments vary without bound.",
  ["src/abi/sysv.c", "src/arch/calling.c", "src/parser/expression_to_ir.c"],
  [("va_start/va_arg", "src/abi/sysv.c sysv_emit_va_start/sysv_emit_va_arg"), ("default promotions", "src/parser/expression.c do_default_argument_promotion")],
  ["values retrieved by va_arg and forwarded to libc v*printf"])

p("C11", "Code for the Microsoft x64 ABI follows that ABI",
  "With the Microsoft ABI selected, for every function signature (integers, pointers, float, double, structs of any size; variadic too) compiled code can call and be called by code built by a reference compiler for the ms_abi convention with all arguments, return values and non-volatile registers intact, and integer types have the LLP64 sizes (4-byte long, 2-byte wchar_t, 8-byte pointers and size_t).",
  ["programs", "inputs"], "all signatures and argument values under the Microsoft ABI",
  "The wine tests compile caller and callee with the same compiler and use few signatures.",
  ["src/abi/microsoft.c", "src/abi/abi.c", "src/codegen/codegen.c"],
  [("argument placement", "src/abi/microsoft.c"), ("type sizes", "src/abi/abi.c, src/abi/microsoft.c")],
  ["argument bytes seen by a gcc ms_abi callee/caller after assembling the -S output"])

p("C12", "The built-in assembler and the textual assembly agree",
  "For every program and either code model, the object written by -c has the same executable code, data, read-only data, symbols and relocation targets as assembling the output of -S for the same input with the system assembler: every emitted instruction encodes to an instruction with the same operation, operand sizes, registers, displacement and immediate. No instruction the compiler emits lacks an encoding.",
  ["programs"], "all programs; all instructions, displacement and immediate magnitudes the compiler can emit",
  "The suite only runs both outputs of the same small tests; an encoding wrong for a displacement, register or immediate they do not contain goes unnoticed.",
  ["src/assembler/encode.c", "src/assembler/instructions.h", "src/assembler/assembler.c", "src/linker/object.c"],
  [("encoding selection", "src/assembler/encode.c assemble_instruction/does_match"), ("encoding", "src/assembler/encode.c assemble_encoding/encode_sib")],
  ["normalised disassembly, section bytes and relocations of both objects"])

p("C13", "Separately compiled units link into the program C17 describes",
  "However a program is divided into translation units, and whichever of them are compiled by this compiler or by gcc, linking the resulting ELF objects with the system linker gives the same behaviour: external, static, extern and tentative definitions denote the right objects and functions, static names in different units never collide, and addresses of functions, objects and elements at any offset (also in static initialisers) resolve correctly. The objects are well-formed ELF with correct symbol binding, definedness, section sizes and alignment.",
  ["programs", "configurations"], "all partitions of programs into translation units and all linkage combinations",
  "tests are single-unit (linking.c only checks declarations), so multi-object behaviour is not exercised at all.",
  ["src/linker/elf.c", "src/linker/object.c", "src/codegen/rodata.c", "src/parser/symbols.c", "src/parser/declaration.c"],
  [("object writer", "src/linker/elf.c elf_from_object"), ("symbols and relocations", "src/linker/object.c"), ("tentative definitions", "src/parser/declaration.c generate_tentative_definitions")],
  ["behaviour of the linked program; readelf/nm view of each object"])

p("C14", "The built-in linker produces executables equivalent to the system linker's",
  "For every set of freestanding inputs (C files compiled in the same invocation and/or ELF objects written by this compiler or the system assembler, in any order), linking them with the compiler itself produces an ELF executable that behaves exactly like the one the system linker makes from the same objects: cross-object references, static names, section data, zero data and alignment are all resolved. An undefined symbol makes the link fail with a non-zero status instead of producing an executable.",
  ["programs", "configurations"], "all sets and orders of freestanding units with arbitrary cross references",
  "No test links with the compiler itself.",
  ["src/linker/linker.c", "src/linker/elf.c", "src/main.c"],
  [("combination and relocation", "src/linker/linker.c combine_objects/linker_link"), ("ELF reader", "src/linker/elf.c object_from_elf")],
  ["exit status and output of the linked executable"])

p("C15", "Macro expansion produces the token sequence C17 defines",
  "For every set of object-like, function-like and variadic macro definitions, redefinitions and #undefs, and every use of them, the expanded token sequence is the one C17 6.10.3 defines: argument collection and pre-expansion, # and ##, __VA_ARGS__, rescanning, and no re-expansion of a macro inside its own expansion. push_macro/pop_macro restore the definition in force at the push.",
  ["programs", "inputs"], "all well-formed macro sets and invocations whose expansion C17 fully specifies",
  "tests/preprocess.c, variadic_macros.c and stringify.c contain a few dozen fixed cases of an unbounded rewriting system.",
  ["src/preprocessor/macro_expander.c", "src/preprocessor/directives.c", "src/preprocessor/string_set.c"],
  [("expansion with hide sets", "src/preprocessor/macro_expander.c expand_buffer/subs_buffer/expand_argument"), ("definition parsing", "src/preprocessor/directives.c directiver_define")],
  ["token sequence after preprocessing (via -E and via stringification in compiled code)"])

p("C16", "Conditional inclusion selects exactly the groups C17 selects",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #elifdef, #elifndef, #else and #endif and every controlling expression, exactly the groups C17 selects are processed, with controlling expressions evaluated in intmax_t/uintmax_t arithmetic after macro replacement and defined(). Nothing in a skipped group has any effect.",
  ["programs", "inputs"], "all conditional nestings and all controlling integer expressions",
  "tests/preprocess.c and elifdef.c sample a few conditions.",
  ["src/preprocessor/directives.c", "src/precedence.c"],
  [("expression evaluation", "src/preprocessor/directives.c evaluate_expression"), ("group selection", "src/preprocessor/directives.c directiver_next")],
  ["which marker tokens survive preprocessing"])

p("C17", "Tokens and literals mean the same however they are spelled",
  "Every spelling of a token sequence that C17 translation phases 1-6 make equivalent (white space, comments, line splices anywhere, CRLF or LF or missing final newline, digit separators, universal character names, literal concatenation with any prefixes) compiles to the same program. Every string and character literal, with any escape sequence and any prefix (none, u8, u, U, L), has exactly the elements, length, terminator and type C17 defines.",
  ["inputs", "programs"], "all lexical spellings of programs and all literal contents",
  "tests/crlf.c, comment.c, character_constants.c, wchar.c, static_strings.c each hold a few fixed spellings.",
  ["src/preprocessor/tokenizer.c", "src/preprocessor/input.c", "src/preprocessor/string_concat.c", "src/escape_sequence.c", "src/utf8.c", "src/common.c"],
  [("tokenising and splicing", "src/preprocessor/tokenizer.c"), ("escapes", "src/escape_sequence.c"), ("concatenation", "src/preprocessor/string_concat.c")],
  ["object bytes for respelled programs; literal contents read by the generated program"])

p("C18", "Inclusion, source positions and dependency output are exact",
  "Every #include resolves to the first matching file (directory of the includer for quoted names, then -I directories in order, then system directories), each file contributes its text once per inclusion unless #pragma once or a guard says otherwise, and a missing file is an error. __LINE__ and __FILE__ denote the presumed position of the token after includes, splices, multi-line comments and #line. -MD lists exactly the files that were read, under the requested target and file name.",
  ["programs", "configurations"], "all file trees, include graphs, search paths and #line placements",
  "tests/include.c, pragma_once.c and line.c use one fixed layout each; -MD is not tested.",
  ["src/preprocessor/input.c", "src/preprocessor/directives.c", "src/preprocessor/preprocessor.c", "src/main.c"],
  [("path search", "src/preprocessor/input.c input_open"), ("line control", "src/preprocessor/directives.c"), ("dependency output", "src/preprocessor/directives.c directiver_finish_writing_dependencies")],
  ["marker tokens and position values in the compiled output; contents of the .d file"])

p("C19", "Preprocessed output compiles to the same program",
  "For every program, compiling the output of -E gives the same executable code and data as compiling the program directly: -E output re-tokenises to exactly the token sequence that direct compilation sees, including tokens produced by macros that end up adjacent, string and character literals with any content, and line structure that matters.",
  ["programs"], "all programs and macro uses",
  "-E is not exercised by any test.",
  ["src/main.c", "src/debug.c", "src/preprocessor/preprocessor.c"],
  [("token printing", "src/main.c preprocess_file; src/debug.c dbg_token")],
  ["object bytes from direct compilation versus from -E output"])

p("C20", "Every declaration and expression has the type C17 gives it",
  "For every declaration (any combination and order of specifiers, any declarator nesting, typedefs, enums, prototypes, qualifiers) the declared entity has the C17 type, and for every expression the compiler attributes the C17 type to it: _Generic picks the same association, sizeof gives the same size, and compatible redeclarations are accepted. Values used through such declarations (calls through nested function pointers, multi-dimensional indexing) behave accordingly.",
  ["programs"], "all declarators, specifier permutations and expression forms",
  "tests/generic.c, sizeof.c, function_returning_function_ptr.c check a few types.",
  ["src/parser/declaration.c", "src/types.c", "src/parser/expression.c"],
  [("specifier sets", "src/parser/declaration.c specifiers_to_type"), ("declarators", "src/parser/declaration.c ast_to_type/parse_declarator"), ("type interning and composite types", "src/types.c"), ("_Generic", "src/parser/expression.c")],
  ["_Generic selections and sizes reported by the compiled program; acceptance"])

p("C21", "Identifiers refer to the declaration C17 scoping rules select",
  "In every program, each use of an identifier, tag, enumerator, label, member or typedef name refers to the innermost visible declaration in the right name space and scope (file, function prototype, block, for-init, nested blocks, after the end of its declarator), with the declared linkage and storage duration. Shadowing in an inner scope never affects the outer entity, objects of static storage keep their values between calls, and automatic objects are distinct per activation.",
  ["programs"], "all nestings of scopes and all reuse of names across name spaces",
  "tests/identifiers.c and linking.c hold a few cases.",
  ["src/parser/symbols.c", "src/parser/declaration.c", "src/parser/function_parser.c"],
  [("symbol tables", "src/parser/symbols.c"), ("scope push/pop", "src/parser/function_parser.c")],
  ["values observed through each use of each name"])

p("C22", "Invalid programs are rejected and valid ones are accepted",
  "A program that violates a rule the compiler enforces - wrong number of call arguments, operands, arguments or initializers of a type the operation does not allow (conversions between pointer types and between pointers and integers are not enforced), assignment to or address of something that is not an lvalue, modification of const objects, invalid declarations, specifiers, members or constants, undeclared identifiers or members, unbalanced or unexpected tokens, false _Static_assert, reached #error, duplicate labels, case or member or parameter misuse, break/continue/case outside their statement, taking a register variable's address, incompatible redeclaration, missing include - is rejected with exit status 1 and a diagnostic and leaves no output claiming success, wherever in the program the violation occurs. The same program without the violation is accepted with exit status 0.",
  ["programs"], "all valid programs crossed with every position and kind of single violation in the enforced classes",
  "tests/should_fail holds 11 fixed files, one violation each at one position.",
  ["src/parser/expression.c", "src/parser/declaration.c", "src/parser/function_parser.c", "src/types.c", "src/preprocessor/directives.c", "src/common.c", "src/debug.c"],
  [("constraint checks", "src/parser/*.c ERROR/ICE calls"), ("exit on error", "src/debug.c impl_error*")],
  ["exit status and diagnostics of the compiler for paired valid/invalid programs"])

p("C23", "The compiler never corrupts memory or hangs, whatever its input",
  "For every input file - valid programs of any shape and also arbitrary or mutated text - the compiler terminates with status 0, or with status 1 and a diagnostic, in time and memory proportionate to the input; it is never killed by a signal and never reads or writes outside its own objects, uses freed memory or executes undefined behaviour in memory access. A status of 0 comes with a complete output file.",
  ["inputs", "programs"], "all byte strings as source files",
  "The tests only feed well-formed programs and 11 small invalid ones, without sanitizers.",
  ["src/preprocessor/tokenizer.c", "src/preprocessor/macro_expander.c", "src/preprocessor/directives.c", "src/parser/declaration.c", "src/parser/expression.c", "src/parser/function_parser.c", "src/ir/ir.c"],
  [("error exits", "src/debug.c impl_error*"), ("bounds in tokenizer and buffers", "src/preprocessor/*.c, src/common.h ADD_ELEMENT")],
  ["exit status, signals, sanitizer reports of an ASan/UBSan build"])

p("C24", "Output depends only on the inputs and options, file by file",
  "Compiling the same file with the same options always yields byte-identical output, whatever the process environment, working directory, memory contents, address-space layout or time (apart from __DATE__/__TIME__). Compiling several files in one invocation yields for each exactly the output that compiling it alone yields, in any order.",
  ["inputs", "configurations", "histories"], "all programs, environments, and sequences of files in one invocation",
  "Every test compiles one file once; compare-generations only compares one linked binary.",
  ["src/main.c", "src/parser/parser.c", "src/ir/ir.c", "src/preprocessor/preprocessor.c", "src/preprocessor/macro_expander.c", "src/codegen/rodata.c", "src/common.c"],
  [("per-file resets", "src/main.c compile_file; preprocessor_reset/ir_reset/asm_reset/parser_reset"), ("zeroed allocation", "src/common.c cc_malloc")],
  ["bytes of the output files"])

p("C25", "The self-compiled compiler behaves identically for every input",
  "The compiler built by itself (second generation) produces, for every input file and option set, exactly the same output bytes, diagnostics and exit status as the compiler built by the host compiler. In particular the generations stay a fixed point for every program, not only for the compiler's own sources.",
  ["programs", "inputs"], "all input programs, valid or not",
  "compare-generations checks one input set (the compiler's own sources); the second-generation compiler runs only the test files.",
  ["src"],
  [("self compilation", "Makefile cc2/cc3 targets; the whole of src")],
  ["output bytes and exit status of both generations"])

p("C26", "Variable-length arrays behave as C17 defines, without leaking stack",
  "Every variable-length array or variably modified type has the size given by its length expressions at the point of declaration (evaluated exactly once), its elements are distinct, aligned and keep their values until the block ends, indexing and sizeof use the run-time size, and other locals and call frames are never disturbed. Blocks, loops, goto and recursion can declare VLAs any number of times with bounded stack use, and returning restores the caller's stack.",
  ["programs", "inputs"], "all VLA declarations, dimensions, element types, lengths and control-flow placements",
  "tests/vla.c has a few fixed sizes.",
  ["src/codegen/codegen.c", "src/types.c", "src/parser/declaration.c", "src/parser/expression_to_ir.c"],
  [("allocation slots", "src/codegen/codegen.c IR_VLA_ALLOC"), ("run-time sizes", "src/types.c type_sizeof/type_evaluate_vla")],
  ["element values, sizeof results and stack addresses observed at run time"])

p("C27", "Command-line options mean what they say in any order and spelling",
  "For every combination and order of operands and the options -c, -S, -E, -o, -D, -U, -I, -MD, -MT, -MF, -O, -W, -std, -g and -f, with values attached or detached, the compiler does what the options say: -D and -U define and remove macros exactly as the equivalent directives would (a later -D replaces an earlier one and, as POSIX requires of c99, -U removes a macro whatever its position), -I adds directories in order, -E writes to standard output unless -o is given, the output goes to the -o path or the default name derived from the input, ignored options change nothing, and a malformed command line is reported with status 1.",
  ["configurations"], "all option subsets, orders and spellings",
  "Tests always use the one form '-c FILE -o OUT' or '-S FILE -o OUT'.",
  ["src/arguments.c", "src/main.c"],
  [("option parsing", "src/arguments.c arguments_parse"), ("definitions and output paths", "src/main.c add_definition/compile_file")],
  ["output files and their contents compared with an equivalent canonical invocation"])

p("C28", "Code model and debugging options never change what a program computes",
  "For every program, compiling with -fcmodel=large, -fcmodel=small, -fdebug-stack-size or -fdump-ir, with any optimisation level, gives an object that links and behaves identically; options other than the code model leave the object file byte-identical.",
  ["programs", "configurations"], "all programs and all values of these options",
  "No test passes any of these options.",
  ["src/codegen/codegen.c", "src/main.c", "src/ir/export_dot.c", "src/abi/sysv.c"],
  [("code models", "src/codegen/codegen.c codegen_constant_to_rdi"), ("option parsing", "src/main.c set_flags")],
  ["behaviour of the linked program and bytes of the object"])

p("C29", "COFF objects carry the same code, data and symbols as their assembly",
  "With the Microsoft ABI selected, the object written by -c is a well-formed x86-64 COFF file whose sections, symbols (name, definedness, section, value, storage class) and relocations (target, kind, addend) match those obtained by assembling the -S output for the same input with the system COFF assembler, for names and sections of any length and number.",
  ["programs"], "all programs compiled for the Microsoft ABI",
  "The wine tests only link small single-unit programs.",
  ["src/linker/coff.c", "src/linker/object.c"],
  [("COFF writer", "src/linker/coff.c coff_from_object/coff_allocate/coff_write")],
  ["objdump view of sections, symbols and relocations of both objects"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
