"""Which contracts, real sources and replay harness decide each property."""
CTYPE = "the C locale is in effect (ctype functions)"
MEM = "memory allocation does not fail; strings are shorter than 2^62 bytes"
LIB = "the C++ standard library, range-v3 and fmt functions listed in trusted_base meet their assumed contracts"
STAND = "tree-gen's support library behaves as its documented interface (stand-in headers in /verif/standin)"
CORE = ["src/v3x/values.cpp", "src/v3x/types.cpp", "src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/version.cpp", "src/error.cpp", "src/annotations.cpp", "src/utils.cpp"]
REG = {
 "C01": dict(spec="utils_specs", harness=["C01.cpp"], sources=["src/utils.cpp"], literals=["src/utils.cpp", "include/libqasm/utils.hpp"], assumptions=[MEM, LIB]),
 "C02": dict(spec="utils_specs", harness=["C02.cpp"], sources=["src/utils.cpp"], literals=["src/utils.cpp", "include/libqasm/utils.hpp"], assumptions=[MEM, LIB, CTYPE]),
 "C03": dict(spec="utils_specs", harness=["C03.cpp"], sources=["src/utils.cpp"], literals=["src/utils.cpp", "include/libqasm/utils.hpp"], assumptions=[MEM, LIB, CTYPE]),
 "C04": dict(spec="utils_specs", harness=["C04.cpp"], sources=["src/utils.cpp"], literals=["src/utils.cpp", "include/libqasm/utils.hpp"], assumptions=[MEM, LIB]),
 "C05": dict(spec="annot_specs", harness=["C05.cpp"], sources=["src/annotations.cpp"], literals=["src/annotations.cpp", "include/libqasm/annotations.hpp"], assumptions=[MEM, LIB]),
 "C06": dict(spec="annot_specs", harness=["C06.cpp"], sources=["src/annotations.cpp"], literals=["src/annotations.cpp", "include/libqasm/annotations.hpp", "include/libqasm/annotations_constants.hpp"], assumptions=[MEM, LIB, "the output stream is in its default formatting state and accepts all output"]),
 "C07": dict(spec="version_specs", standin=True, harness=["C07.cpp"], sources=["src/version.cpp"], literals=["src/version.cpp", "include/libqasm/version.hpp"], assumptions=[MEM, LIB, STAND, "strtoll accepts exactly optional white space, an optional sign and decimal digits; the decimal text of a number holds no dot and is read back as that number"]),
 "C08": dict(spec="version_specs", standin=True, harness=["C08.cpp"], sources=["src/version.cpp"], literals=["src/version.cpp", "include/libqasm/version.hpp"], assumptions=[MEM, LIB, STAND]),
 "C09": dict(spec="error_specs", standin=True, harness=["C09.cpp"], sources=["src/error.cpp", "src/annotations.cpp", "src/utils.cpp"], literals=["src/error.cpp", "include/libqasm/error.hpp"], assumptions=[MEM, LIB, STAND, "the locations given are well formed; printing a location is decided by C06"]),
 "C10": dict(spec="error_specs", standin=True, harness=["C10.cpp"], sources=["src/error.cpp", "src/annotations.cpp", "src/utils.cpp"], literals=["src/error.cpp", "include/libqasm/error.hpp"], assumptions=[MEM, LIB, STAND, "json_encode and url_encode meet their contracts (decided by C01 and C02)"]),
 "C12": dict(spec="strb_specs", standin=True, harness=["C12.cpp"], sources=["src/string_builder.cpp"], literals=["src/string_builder.cpp"], assumptions=[MEM, LIB, STAND]),
 "C14": dict(spec="values_specs", standin=True, harness=["C14.cpp"], sources=CORE, literals=["src/v3x/values.cpp", "src/v3x/types.cpp"], assumptions=[MEM, LIB, STAND, "input trees are well formed: no empty One or Link, and an indexed reference refers to an array variable"]),
 "C13": dict(spec="resolver_specs", standin=True, harness=["C13.cpp"], sources=CORE + ["src/v3x/resolver.cpp"], literals=["src/v3x/resolver.cpp", "include/libqasm/overload.hpp"], assumptions=[MEM, LIB, STAND, "promotion is a function of value and type (C14 decides which)"]),
 "C16": dict(spec="instr_specs", standin=True, harness=["C16.cpp"], sources=CORE + ["src/v3x/instruction_set.cpp"], literals=["src/v3x/instruction_set.cpp", "include/libqasm/v3x/instruction_set.hpp"], assumptions=[MEM, LIB, STAND]),
 "C17": dict(spec="instr_specs", standin=True, harness=["C17.cpp"], sources="ALL", literals=["src/v3x/instruction_set.cpp", "src/v3x/register_instructions.cpp"], assumptions=[MEM, LIB, STAND, "resolution in the table is decided by C13"]),
 "C20": dict(spec="scope_specs", standin=True, harness=["C20.cpp"], sources="ALL", literals=["src/v3x/analyzer.cpp", "src/v3x/resolver.cpp"], assumptions=[MEM, LIB, STAND, "the global scope is never popped: the analysis pops only scopes it pushed"]),
 "C15": dict(spec="consteval_specs", standin=True, harness=["C15.cpp"], sources="ALL", literals=["include/libqasm/v3x/register_consteval_core_functions.hpp", "src/v3x/semantic_analyzer.cpp"], assumptions=[MEM, LIB, STAND, "the functions of <cmath> are uninterpreted: the same function applied to the same operands; promotion of operands is decided by C14 and C13"]),
 "C30": dict(spec="consteval_specs", standin=True, harness=["C30.cpp"], sources="ALL", literals=["src/v3x/register_consteval_core_functions.cpp", "src/v3x/analyzer.cpp"], assumptions=[MEM, LIB, STAND, "overload resolution picks the last applicable registration (decided by C13)"]),
 "C18": dict(spec="stmt_specs", standin=True, harness=["C18.cpp"], sources="ALL", literals=["src/v3x/semantic_analyzer.cpp"], assumptions=[MEM, LIB, STAND, "evaluating the operands and resolving the instruction meet their contracts (decided by C13, C17, C19, C20); a measurement has two operands and arrays a positive size (decided by C17 and C22)"]),
 "C19": dict(spec="sema_specs", standin=True, harness=["C19.cpp"], sources="ALL", literals=["src/v3x/semantic_analyzer.cpp"], assumptions=[MEM, LIB, STAND, "promotion is decided by C14; a list longer than 2^62 indices cannot be held in memory"]),
 "C22": dict(spec="block_specs", standin=True, harness=["C22.cpp"], sources="ALL", literals=["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp"], assumptions=[MEM, LIB, STAND, "a statement's own checks (promotion, resolution, parameters, sizes) are contracts decided by C13, C14, C17 to C21; a range's position order (first <= last) is decided by C05"]),
 "C28": dict(spec="entry_specs", standin=True, harness=["C28.cpp"], sources="ALL", literals=["src/v3x/analyzer.cpp"], assumptions=[MEM, LIB, STAND, "the analysis of a program writes only to the current scope and its block (visit_program; C20 and C22 decide its parts)"]),
 "C25": dict(spec="ser_specs", standin=True, harness=["C25.cpp"], sources=["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/types.cpp", "src/v3x/values.cpp", "src/version.cpp", "src/annotations.cpp", "src/error.cpp", "src/utils.cpp"], literals=["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp"], assumptions=[MEM, LIB, STAND]),
 "C29": dict(spec="py_specs", standin=True, harness=["C29.cpp"], sources=["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/types.cpp", "src/v3x/values.cpp", "src/version.cpp", "src/annotations.cpp", "src/error.cpp", "src/utils.cpp"], literals=["python/module/cqasm/v3x/primitives.py", "src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp"], assumptions=[MEM, LIB, STAND, "texts in a tree are valid UTF-8 (ANTLR rejects other input)", "SWIG hands strings over as str with undecodable bytes as lone surrogates; CBOR text becomes str and binary bytes; a type is read back from its bytes (tree-gen)"]),
 "C24": dict(note="The visitors, error listener, scanners and parse entry points are proved against their contracts for all parse contexts. The grammar files are under contract too: each token's language, each rule's symbols and the order and side of each pair of operators are obligations over the current .g4 files, for all texts. That the parser ANTLR generates follows ANTLR's documented rules is trusted; programs written from random trees, and texts that are no program, search it (bounded, never counted as proved) with a parser this check generates from the grammar files.", spec="syn_specs", standin=True, harness=["C24.cpp"], sources=["src/v3x/syntactic_analyzer.cpp", "src/v3x/antlr_scanner.cpp", "src/v3x/antlr_custom_error_listener.cpp", "src/v3x/parse_helper.cpp", "src/v3x/parse_result.cpp", "src/annotations.cpp", "src/error.cpp", "src/utils.cpp", "src/v3x/primitives.cpp", "src/version.cpp", "src/v3x/types.cpp", "src/v3x/values.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp"], literals=["src/v3x/syntactic_analyzer.cpp"], assumptions=[MEM, LIB, STAND, "the parser ANTLR generates from the grammar is a contract: each context yields the contexts and tokens of its rule, those the rule lets out may be absent; it follows ANTLR's documented rules (longest match, first rule among equals, non-greedy loops end first, modes, earlier alternatives of a left-recursive rule bind tighter)", "token positions fit 30 bits", "std::stod is a contract: the value of the text or out_of_range", "std::regex_match is a contract for the version pattern as written"]),
 "C26": dict(spec="entry_specs", standin=True, harness=["C26.cpp"], sources="ALL", more_sources=["emscripten/emscripten_wrapper.cpp"], literals=["src/v3x/cqasm.cpp", "src/v3x/cqasm_python.cpp", "emscripten/emscripten_wrapper.cpp"], assumptions=[MEM, LIB, STAND, "parsing and analyzing are contracts: one result for each text, file and name (parse_helper, C22, C23); the results' texts and JSON are decided by C11"]),
 "C23": dict(spec="block_specs", standin=True, harness=["C23.cpp"], sources="ALL", literals=["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp"], assumptions=[MEM, LIB, STAND, "comparing and parsing versions are contracts decided by C07 and C08"]),
 "C11": dict(spec="result_specs", standin=True, harness=["C11.cpp"], sources="ALL", literals=["src/v3x/analysis_result.cpp", "include/libqasm/result.hpp"], assumptions=[MEM, LIB, STAND, "the texts and diagnostics of errors are contracts decided by C09 and C10; serialize and dump_json of tree-gen yield one text for each tree; without errors there is a tree"]),
 "C21": dict(spec="stmt_specs", standin=True, harness=["C21.cpp"], sources="ALL", literals=["src/v3x/semantic_analyzer.cpp", "src/v3x/instruction_set.cpp"], assumptions=[MEM, LIB, STAND, "promotion and resolution are decided by C13, C14 and C20; the grammar gives every modifier a gate, no other gate one, no keyword as gate name and wait its parameter list"]),
}
NA = {"C27": "lexing and parsing arbitrary text is ANTLR's runtime and its generated parser, which are neither in the repository nor installed here: their termination and freedom from crashes is beyond any contract within reach. What the repository's own code adds is decided elsewhere: no exception escapes a visitor, the scanners and parse functions (C24), the analysis of a statement or program (C18-C23), constant evaluation (C15); one result per text (C11, C26)."}
