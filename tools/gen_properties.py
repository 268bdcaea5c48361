"""Writes properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "JSON string encoding is valid JSON content and loses nothing",
  "For every byte string, JSON-encoding it yields text that contains no raw quote, no raw control character and no backslash other than one starting a well-formed four-hex-digit unicode escape. Decoding the escapes gives back exactly the original byte string. Bytes that need no escape (including every byte of a multi-byte UTF-8 character) appear unchanged and in order.",
  ["inputs"], "every byte string of every length over all 256 byte values",
  "tests encode four fixed strings; no test uses a byte above 0x7f, and correctness over unbounded strings needs an induction over positions",
  ["src/utils.cpp", "include/libqasm/utils.hpp"], [("json_encode", "src/utils.cpp")], ["return value of the JSON encoder"])
p("C02", "URL encoding is injective and uses only unreserved characters and %HH",
  "For every byte string, URL-encoding keeps exactly the unreserved characters (ASCII letters, digits, '-', '_', '.', '~') as they are and replaces every other byte by '%' and its two upper-case hexadecimal digits. The output therefore contains no reserved, space, control or non-ASCII byte, and percent-decoding it returns the original byte string.",
  ["inputs"], "every byte string of every length over all 256 byte values",
  "tests encode a handful of file names; the guarantee is per byte and per position of an unbounded string",
  ["src/utils.cpp"], [("url_encode", "src/utils.cpp")], ["return value of the URL encoder", "uri field of an error's JSON"])
p("C03", "Case folding and case-insensitive comparison agree with ASCII case",
  "Lower-casing maps each ASCII upper-case letter to its lower-case letter and keeps every other byte, so it preserves length and is idempotent. Two strings compare equal ignoring case exactly when their lower-cased forms are identical, so the comparison is an equivalence relation and is false for strings of different length.",
  ["inputs"], "every pair of byte strings",
  "tests compare a few short pairs; the equivalence-relation and prefix cases range over all pairs of strings",
  ["src/utils.cpp"], [("to_lowercase", "src/utils.cpp"), ("equal_case_insensitive", "src/utils.cpp")], ["return values"])
p("C04", "Removing triple quotes returns exactly the enclosed text",
  "For every text, removing the triple quotes from that text enclosed between an opening and a closing triple quote returns exactly the text: nothing dropped, nothing added, whatever quotes, escapes or newlines it contains, including the empty text.",
  ["inputs"], "every byte string as enclosed text",
  "tests use one or two sample strings; the guarantee is for all contents, including contents made of quotes",
  ["src/utils.cpp", "src/v3x/syntactic_analyzer.cpp"], [("remove_triple_quotes", "src/utils.cpp")], ["return value", "backend code of an asm declaration"])
p("C05", "A source range never ends before it starts and only grows when expanded",
  "Every source range built from two positions starts at the first given position and never ends before it starts, positions being ordered by line and then by column. Expanding a range to include a position gives the smallest range that contains both the old range and that position: it never shrinks, and expanding by positions of the range changes nothing. Position, range and location comparisons are total orders consistent with equality of ranges.",
  ["inputs", "histories"], "all pairs of 32-bit line and column values and every sequence of expansions",
  "tests try a few positions; min/max over two 32-bit components and arbitrary expansion sequences need all-input reasoning",
  ["src/annotations.cpp", "include/libqasm/annotations.hpp"],
  [("Range constructor", "src/annotations.cpp"), ("expand_to_include", "src/annotations.cpp"), ("Index ordering", "include/libqasm/annotations.hpp")],
  ["first and last position of a location's range"], [("range", "first and last index of a source location", "include/libqasm/annotations.hpp")])
p("C06", "Source locations print unambiguously and a blank file name means unknown",
  "Printing a location gives the file name, or the unknown-file placeholder exactly when no file name or an empty one was supplied, followed by nothing if the line is unknown, by the line (and a greater last line) if the column is unknown, and otherwise by line and column of the start and whatever distinguishes the end. Each number printed is the stored one, in decimal.",
  ["inputs"], "every optional file name and every range of 32-bit line and column values",
  "tests print about ten sample locations; the case analysis is over relations between four unbounded numbers and an arbitrary file name",
  ["src/annotations.cpp", "include/libqasm/annotations_constants.hpp"],
  [("operator<<", "src/annotations.cpp"), ("SourceLocation constructor", "src/annotations.cpp")], ["stream output of a source location"])
p("C07", "Version text round-trips: parsing splits at dots, printing joins with dots",
  "Parsing a non-empty dotted text of decimal components yields exactly those numbers, in order, one per component, for every component that fits the component type; an empty text yields an empty version; a component that is negative, does not fit or does not begin with a number is rejected with an exception and never yields a version. Printing a version joins its components with dots, so parsing what was printed gives the same components back.",
  ["inputs"], "every text and every vector of non-negative 64-bit components",
  "no stable test builds the version code at all; splitting and re-joining an unbounded list needs induction",
  ["src/version.cpp", "include/libqasm/version.hpp"], [("Version constructor", "src/version.cpp"), ("operator<<", "src/version.cpp")], ["components of a version", "printed version"])
p("C08", "Versions are totally ordered, with missing components counting as zero",
  "Comparing two versions decides at the first component at which they differ, missing trailing components counting as zero; versions that never differ are equal. Hence the comparison is reflexive, antisymmetric, transitive and total, 3.0 equals 3 and 3.0.0, and equality and ordering never disagree.",
  ["inputs"], "all pairs (and for transitivity triples) of component lists of any length",
  "no stable test compares versions; order laws quantify over all pairs and triples of unbounded lists",
  ["src/version.cpp", "include/libqasm/version.hpp"], [("Version::compare", "src/version.cpp"), ("operator== and <=>", "include/libqasm/version.hpp")], ["results of version comparisons", "language version gate"])
p("C09", "An error keeps its message and its first location for ever",
  "An error built from any message and optional location reports exactly that message (a fixed placeholder if the message is empty), prefixed by the location exactly when it has one. Attaching a context gives the error the location of the node only if it had none; later contexts never change it, so the innermost location survives however many callers add context.",
  ["inputs", "histories"], "every message, every optional location, and every sequence of context attachments",
  "the error tests are not built here and try single attachments only; the guarantee is over all sequences",
  ["src/error.cpp", "include/libqasm/error.hpp"], [("Error constructors", "src/error.cpp"), ("Error::context", "src/error.cpp"), ("Error::what", "src/error.cpp")],
  ["what() and stream output of an error"], [("location_", "attached source location, null if none", "include/libqasm/error.hpp")])
p("C10", "An error's JSON is a valid language-server diagnostic carrying its exact data",
  "The JSON text of an error is well-formed JSON for every message, location and file name: an object whose range holds exactly the stored start and end positions (zeros without a location), whose message decodes to exactly the error message and whose severity is 1. It has related information exactly when a file name is known, whose URI is the percent-encoded file name.",
  ["inputs"], "every message, file name and range",
  "the few error tests use ASCII messages and are not built here; well-formedness must hold for arbitrary message and file name bytes",
  ["src/error.cpp", "src/utils.cpp"], [("Error::to_json", "src/error.cpp"), ("json_encode", "src/utils.cpp"), ("url_encode", "src/utils.cpp")], ["JSON text of an error"])
p("C11", "A result carries either the tree or all its errors, never both, in order",
  "Turning a parse or analysis result into strings gives the serialized tree followed by nothing when there are no errors, and otherwise an empty first string followed by the text of every error, one string per error in order. Turning it into JSON gives the tree's JSON when there are no errors, and otherwise an object holding one diagnostic per error in order. Unwrapping a result fails exactly when it has errors.",
  ["inputs"], "results with any tree and any number of errors",
  "the result tests are not built here and use at most two errors",
  ["include/libqasm/result.hpp", "src/v3x/analysis_result.cpp", "src/v3x/parse_result.cpp"],
  [("to_strings, to_json, errors_to_json", "include/libqasm/result.hpp"), ("unwrap", "src/v3x/analysis_result.cpp")], ["returned strings and JSON"])
p("C12", "The string builder concatenates fragments and decodes exactly the known escapes",
  "For every sequence of pushed fragments and escapes, the built string is the concatenation of the fragments verbatim and of each escape's meaning: tab, newline, carriage return, single quote, double quote and backslash escapes decode to that one character, and any other escape text is kept as it is.",
  ["inputs", "histories"], "every sequence of pushes of every text",
  "nothing in the stable tests builds or runs the string builder",
  ["src/string_builder.cpp"], [("push_string", "src/string_builder.cpp"), ("push_escape", "src/string_builder.cpp")], ["contents of the builder's stream"])
p("C13", "Overload resolution picks the last applicable overload, promoting arguments",
  "Resolving a name with an argument list returns the most recently added overload of that name that has as many parameters as arguments and to whose parameter types every argument can be promoted, together with the argument list promoted to exactly those types, in order. It fails with a name failure exactly if nothing was registered under that name, and with an overload failure exactly if no overload of the name applies. Overloads registered under other names never matter.",
  ["inputs", "histories"], "every registration sequence, name and argument list",
  "tests resolve a few calls against the default tables; the choice must be right for every overload list and argument list",
  ["include/libqasm/overload.hpp", "src/v3x/resolver.cpp"], [("OverloadResolver::resolve", "include/libqasm/overload.hpp"), ("OverloadedNameResolver", "include/libqasm/overload.hpp")], ["chosen overload and promoted arguments"])
p("C14", "Promotion only widens bool to int to float, and exactly as the type check says",
  "Promoting a value to a type returns the value itself when it already has that type, converts constants from bool to int, bool to float and int to float to the numerically equal constant, returns a bool variable unchanged where an int is wanted, and otherwise reports failure; it never changes the value. The static promotion check accepts a pair of types only for identity or these widenings, is reflexive and transitive, and never allows promotion between quantum, bit, array and numeric types. A promoted constant keeps the source location of the original.",
  ["inputs"], "every value and every pair of types",
  "tests cover a handful of promotions; the guarantee is over all values and all type pairs, including composition",
  ["src/v3x/values.cpp", "src/v3x/types.cpp"], [("promote", "src/v3x/values.cpp"), ("check_promote", "src/v3x/values.cpp"), ("type_of", "src/v3x/values.cpp")], ["promoted value and its type"])
p("C15", "Constant expressions evaluate to the mathematical result or a reported error",
  "Evaluating a built-in operator or function on constants gives the value the language defines: two's-complement 64-bit integer arithmetic with truncating division, IEEE double arithmetic, exact comparisons, boolean logic and selection by condition. Integer division or remainder by zero, and a shift by a count outside 0 to 63, is reported as an analysis error and never stops the process. The value depends only on the operands.",
  ["inputs"], "every operator and function and all operand values, including extreme integers, zeros, NaN and infinities",
  "tests evaluate a few small expressions; crashes and wrong results sit at particular 64-bit operand values",
  ["include/libqasm/v3x/register_consteval_core_functions.hpp", "src/v3x/register_consteval_core_functions.cpp"],
  [("constant evaluation functors", "include/libqasm/v3x/register_consteval_core_functions.hpp"), ("registration table", "src/v3x/register_consteval_core_functions.cpp")], ["constant node an expression is replaced by"])
p("C16", "Instruction classification is consistent and lookups match the instruction table",
  "Every name is classified consistently: a name of the instruction table is exactly one of single-qubit gate, two-qubit gate and non-gate, modifiers are exactly inv, pow and ctrl and never table instructions, and a gate's arity class equals the number of operands in each of its table rows. Parameter types returned for a name (and a parameter count) are those of a table row of that name with that count, and unknown names are rejected with an analysis error.",
  ["inputs"], "every name and every parameter count",
  "tests look up some known names; consistency is over all names, known or not, and over the whole table",
  ["src/v3x/instruction_set.cpp", "include/libqasm/v3x/instruction_set.hpp"], [("InstructionSet tables and queries", "src/v3x/instruction_set.cpp")], ["results of instruction set queries"])
p("C17", "Registering the default instructions makes exactly the standard set resolvable",
  "After registering the default instruction set, the analyzer resolves every gate of the instruction table with exactly its operand type lists, every inverse or power composition of a single-qubit gate with that gate's operand types, every controlled composition with one extra leading qubit or qubit-array operand, and every non-gate instruction with its operand types, and nothing else.",
  ["inputs"], "every row of the instruction table and every gate composition",
  "tests resolve a few instructions; a missing or wrong registration shows only for its own name and operand types",
  ["src/v3x/register_instructions.cpp", "src/v3x/analyzer.cpp"], [("register_instructions", "src/v3x/register_instructions.cpp")], ["set of registered name and operand type pairs"])
p("C18", "Instructions are accepted only if their operand sizes match",
  "A gate applied to several operands is accepted only if all its qubit operands denote the same number of qubits, and a measurement only if the number of qubits equals the number of bits, a plain qubit or bit counting one, an array its size and an indexed operand its number of indices. Otherwise an analysis error is reported and no instruction is added.",
  ["inputs", "programs"], "every operand list of any length with arrays of any size and any number of indices",
  "integration tests try small fixed sizes; the comparison must be right for all sizes and operand positions",
  ["src/v3x/semantic_analyzer.cpp"], [("operand size checks", "src/v3x/semantic_analyzer.cpp")], ["errors of the analysis result", "statements of the semantic tree"])
p("C19", "Indexing stays within the declared size and ranges expand inclusively",
  "An indexed reference is accepted only for qubit and bit arrays and only if every index is at least zero and below the declared size; it then lists exactly the written indices in order, a range standing for every integer from its first to its last inclusive. Any other index, a range whose end is below its start, a non-constant index, or indexing something that is not a variable is reported as an analysis error and never crashes.",
  ["inputs", "programs"], "every index list and every array size",
  "tests use small arrays and a few indices; boundaries are at every declared size",
  ["src/v3x/semantic_analyzer.cpp"], [("visit_index", "src/v3x/semantic_analyzer.cpp"), ("check_out_of_range", "src/v3x/semantic_analyzer.cpp"), ("visit_index_range", "src/v3x/semantic_analyzer.cpp")], ["index list of an indexed operand", "analysis errors"])
p("C20", "Names resolve to the innermost declaration and are declared once per scope",
  "Declaring a name twice in one scope is rejected and leaves the first declaration in force; declaring it in an inner scope shadows the outer one until that scope ends. Looking a name up returns a copy of the value registered in the innermost scope that has it, case-sensitively, and fails with an analysis error exactly if no scope has it.",
  ["inputs", "histories"], "every sequence of declarations, scope openings and closings, and lookups",
  "tests open at most one inner scope; the guarantee is over all sequences of operations",
  ["src/v3x/resolver.cpp", "src/v3x/analyzer.cpp", "include/libqasm/v3x/scope.hpp"],
  [("VariableTable", "src/v3x/resolver.cpp"), ("scope stack", "src/v3x/analyzer.cpp")], ["resolved values and errors"], [("scope_stack_", "innermost scope first", "include/libqasm/v3x/analyzer.hpp")])
p("C21", "Gate parameters and modifiers are checked for count, type and target",
  "A gate, modifier or instruction is accepted only with a parameter list whose length and types (after promotion) are those of its table entry, and then carries exactly the promoted parameters in order. A modifier is accepted only in front of something that is a single-qubit gate; the instruction is then looked up under the composition class its outermost modifier implies.",
  ["inputs", "programs"], "every nesting of modifiers and every parameter list",
  "integration tests nest a few modifiers; nesting depth and parameter lists are unbounded",
  ["src/v3x/semantic_analyzer.cpp", "src/v3x/instruction_set.cpp"], [("resolve_parameters", "src/v3x/semantic_analyzer.cpp"), ("check_gate", "src/v3x/semantic_analyzer.cpp"), ("gate resolution name", "src/v3x/semantic_analyzer.cpp")], ["gate node and analysis errors"])
p("C22", "Each faulty statement yields its error and the others are still analyzed",
  "A semantic error in one statement is recorded with a location and does not stop the analysis: every other statement is analyzed as if the faulty one were absent, the faulty one adds nothing to the tree, and accepted statements appear in source order. The block's location covers every accepted statement.",
  ["programs"], "every list of statements with any subset of them faulty",
  "integration tests contain single faults; the claim is over all statement lists and all fault subsets",
  ["src/v3x/semantic_analyzer.cpp", "include/libqasm/v3x/semantic_analyzer.hpp", "src/v3x/analyzer.cpp"], [("visit_block", "include/libqasm/v3x/semantic_analyzer.hpp"), ("add_statement_to_current_scope", "src/v3x/analyzer.cpp")], ["statements and errors of the analysis result"])
p("C23", "Only the supported language version is accepted",
  "A program is accepted only if its declared version equals the supported version, missing components counting as zero; otherwise, or if a component is negative, an error located at the version statement is reported. The result always states the supported version as its API version, and a file version that is either the accepted one or that default.",
  ["programs", "inputs"], "every declared version",
  "tests use one wrong version; versions are arbitrary component lists",
  ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp"], [("visit_version", "src/v3x/semantic_analyzer.cpp"), ("Analyzer constructor", "src/v3x/analyzer.cpp")], ["analysis errors", "version nodes of the result"])
p("C24", "The parser maps source text to tree faithfully: literals, operators, positions",
  "For every syntactically valid program, parsing returns, with no error, the tree the text denotes by the language's precedence and associativity rules: each literal holds the value written, each operator, gate, instruction, index and declaration its own parts in source order, a unary plus or parentheses leave the expression inside. Expressions, gates, instructions, variables, types and the version are located, in the file given (none if its name is empty), at the one-based start and end of their defining token (operator; keyword or name; literal; a type up to its closing bracket; an instruction at its gate). A literal or version number beyond 64 bits, and a float literal out of range, is one error at that literal without a tree; lexical and syntax errors are one error at the offending token, the end of the text having no length. Each text is parsed once, exactly as given.",
  ["programs"], "every valid program text",
  "golden files cover a few hundred small programs and are not run here",
  ["src/v3x/syntactic_analyzer.cpp", "src/v3x/antlr_scanner.cpp", "src/v3x/parse_helper.cpp", "src/v3x/CqasmParser.g4", "src/v3x/CqasmLexer.g4"], [("syntactic analyzer visitors", "src/v3x/syntactic_analyzer.cpp"), ("AntlrScanner::parse_", "src/v3x/antlr_scanner.cpp"), ("ParseHelper::parse", "src/v3x/parse_helper.cpp")], ["syntactic tree", "parse errors"])
p("C25", "Serialized trees deserialize to equal trees",
  "Every primitive, instruction and function reference stored in a serialized tree is read back equal to what was written, for every value including extreme integers, non-finite floats and arbitrary strings.",
  ["inputs"], "every tree",
  "tests do not exercise serialization of extreme values",
  ["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp"], [("serialize and deserialize", "src/v3x/primitives.cpp")], ["deserialized tree"])
p("C26", "Every front end returns the same analysis as the core API",
  "The convenience and language-binding entry points parse and analyze exactly the text or file they are given, once; texts with the file name they are given (none if empty), files without one except for Analyzer::analyze_file, which names the file by its path. They analyze with the version given and with the default constants, functions and (unless the binding is told otherwise) instructions, plus those registered, and return the core result's tree, strings or JSON unchanged, or AnalysisFailed where there are errors.",
  ["inputs", "configurations"], "every input text and file name through every entry point",
  "tests call the entry points on a few files; agreement is over all inputs",
  ["src/v3x/cqasm.cpp", "src/v3x/cqasm_python.cpp", "emscripten/emscripten_wrapper.cpp"], [("analysis entry points", "src/v3x/cqasm.cpp"), ("Python binding entry points", "src/v3x/cqasm_python.cpp"), ("JavaScript binding entry points", "emscripten/emscripten_wrapper.cpp")], ["returned strings"])
p("C27", "Analysis of arbitrary text terminates with a tree or errors, never a crash",
  "For every input text, parsing and analyzing it terminates and returns either a well-formed tree or a non-empty list of errors; it never crashes or leaks an exception.",
  ["inputs", "programs"], "every input text",
  "no finite set of texts settles it, and the parser is not even built here",
  ["src/v3x/syntactic_analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/antlr_scanner.cpp"], [("parse and analyze pipeline", "src/v3x/parse_helper.cpp")], ["analysis result"])
p("C28", "An analyzer gives the same answer whatever it analyzed before",
  "Analyzing a program with an analyzer that already analyzed other programs gives the same tree and errors as with a fresh analyzer set up the same way; names, statements and errors of one analysis never show up in another, and results handed out before stay as they are.",
  ["histories"], "every sequence of programs analyzed with one analyzer",
  "tests use a fresh analyzer for each program",
  ["src/v3x/analyzer.cpp", "include/libqasm/v3x/analyzer.hpp"], [("Analyzer::analyze", "src/v3x/analyzer.cpp")], ["analysis results"], [("scope_stack_", "scopes with tables, block and variables", "include/libqasm/v3x/analyzer.hpp")])
p("C29", "The Python package reads back the trees the library serializes",
  "Every value in a tree the library serializes (text, truth value, integer, float, version, instruction reference with its name and operand types) is reconstructed by the Python package with the same Python type and value, and so it is after the package has written it itself. The package's parse and analyze methods hand their arguments to the library unchanged and return the tree read from exactly the bytes the library wrote, or all of its errors in order; the JSON methods return the library's text.",
  ["inputs"], "every serialized value, every result of the library",
  "Python tests deserialize a few results and are not run here",
  ["python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py"], [("deserialize functions", "python/module/cqasm/v3x/primitives.py"), ("serialize functions", "src/v3x/primitives.cpp"), ("Analyzer methods", "python/module/cqasm/v3x/__init__.py")], ["Python tree"])
p("C30", "Built-in constants and functions are registered with their standard meaning",
  "After registering the defaults, the names true, false, pi, eu and tau resolve to the boolean constants and the nearest doubles of those numbers, and every operator and mathematical function of the language resolves for exactly its documented operand types to the implementation of that same operator or function.",
  ["configurations", "inputs"], "every default name, operator and function, with every operand type list",
  "tests evaluate a subset of the functions; swapping two registrations shows only for the affected name and types",
  ["src/v3x/analyzer.cpp", "src/v3x/register_consteval_core_functions.cpp"], [("register_default_constants", "src/v3x/analyzer.cpp"), ("register_consteval_core_functions", "src/v3x/register_consteval_core_functions.cpp")], ["resolved constants and function results"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
