import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
LX, PG = "src/v3x/CqasmLexer.g4", "src/v3x/CqasmParser.g4"
INC = ["libqasm/v3x/analyzer.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/analysis_result.hpp", "libqasm/v3x/parse_helper.hpp", "libqasm/v3x/parse_result.hpp", "libqasm/v3x/syntactic.hpp", "libqasm/error.hpp"]
P = r"""
using namespace cqasm::v3x;
static bool parses(const std::string& t) { return parser::parse_string("version 3.0\n" + t, std::nullopt).errors.empty(); }
static size_t statements(const std::string& t) { auto r = parser::parse_string("version 3.0\n" + t, std::nullopt); return r.errors.empty() ? r.root->as_program()->block->statements.size() : 999; }
static std::string value(const std::string& e) { analyzer::Analyzer a; a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); auto r = a.analyze_string("version 3.0\nqubit q\nRx(" + e + ") q\n", std::nullopt); if (!r.errors.empty()) return r.errors[0].what(); std::ostringstream s; auto v = r.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->as_const_float(); if (!v) return "?"; s << v->value; return s.str(); }
"""
main = lambda b: P + "int main() { " + b + " return 0; }\n"
go("z01-exponent-sign", "C24", "a float literal whose exponent has a plus sign", "the exponent of a float literal takes a minus sign only",
   [(LX, "fragment Exponent: [eE][-+]?Digit+;", "fragment Exponent: [eE] '-'? Digit+;")],
   INC, main(r'CHECK(value("1.5e-1") == "0.15"); CHECK(value("1.5e+1") == "15");'), "ALL")
go("z02-comment-greedy", "C24", "two block comments with code between", "a block comment reaches to the last end of a comment",
   [(LX, "'/*' .*? '*/'", "'/*' .* '*/'")],
   INC, main(r'CHECK(statements("/* a */ qubit q\n") == 1); CHECK(statements("/* a */ qubit q\n/* b */ qubit r\n") == 2);'), "ALL")
go("z03-power-left", "C24", "a power of a power", "powers associate to the left",
   [(PG, "<assoc=right> expression POWER_OP", "expression POWER_OP")],
   INC, main(r'CHECK(value("2 ** 3") == "8"); CHECK(value("2 ** 3 ** 2") == "512");'), "ALL")
go("z04-shift-below-compare", "C24", "a shift and a comparison without parentheses", "comparisons bind tighter than shifts",
   [(PG, "    | expression (SHL_OP | SHR_OP) expression  # shiftExpression\n", ""), (PG, "CMP_GE_OP | CMP_LE_OP) expression  # comparisonExpression\n", "CMP_GE_OP | CMP_LE_OP) expression  # comparisonExpression\n    | expression (SHL_OP | SHR_OP) expression  # shiftExpression\n")],
   INC, main(r'CHECK(value("1 << 2") == "4"); CHECK(value("(1 << 2 > 3) ? 1 : 2") == "1");'), "ALL")
go("z05-xor-and-level", "C24", "a logical exclusive or of a conjunction", "&& and ^^ bind equally tight",
   [(PG, "    | expression LOGICAL_XOR_OP expression  # logicalXorExpression\n", ""), (PG, "    | expression LOGICAL_AND_OP expression  # logicalAndExpression\n", "    | expression LOGICAL_XOR_OP expression  # logicalXorExpression\n    | expression LOGICAL_AND_OP expression  # logicalAndExpression\n")],
   INC, main(r'CHECK(value("(true ^^ false) ? 1 : 2") == "1"); CHECK(value("(true ^^ true && false) ? 1 : 2") == "1");'), "ALL")
go("z06-underscore-start", "C24", "an identifier that begins with an underscore", "an identifier begins with a letter proper",
   [(LX, "IDENTIFIER: Letter (Letter | Digit)*;\nfragment Letter: [a-zA-Z_];", "IDENTIFIER: [a-zA-Z] (Letter | Digit)*;\nfragment Letter: [a-zA-Z_];")],
   INC, main(r'CHECK(parses("qubit a_1\n")); CHECK(parses("qubit _a\n"));'), "ALL")
go("z07-form-feed", "C24", "a text with a lone carriage return", "a carriage return alone ends a line",
   [(LX, "NEW_LINE: '\\r'?'\\n';", "NEW_LINE: '\\r'?'\\n' | '\\r';")],
   INC, main(r'CHECK(parses("qubit a\r\nqubit b\n")); CHECK(!parses("qubit a\rqubit b\n"));'), "ALL")
