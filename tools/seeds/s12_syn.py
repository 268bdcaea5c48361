import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
SA, EL = "src/v3x/syntactic_analyzer.cpp", "src/v3x/antlr_custom_error_listener.cpp"
SRCS = ["src/v3x/%s.cpp" % n for n in ("syntactic_analyzer", "antlr_scanner", "antlr_custom_error_listener", "parse_helper", "parse_result", "primitives", "types", "values", "instruction", "core_function")] + ["src/annotations.cpp", "src/error.cpp", "src/utils.cpp", "src/version.cpp"]
INC = ["libqasm/annotations.hpp", "libqasm/v3x/parse_helper.hpp", "libqasm/v3x/parse_result.hpp", "libqasm/v3x/syntactic.hpp"]
P = r"""
namespace parser = cqasm::v3x::parser; namespace syn = cqasm::v3x::syntactic; using Loc = cqasm::annotations::SourceLocation;
static parser::ParseResult R;
static const syn::Statement& stmt(const std::string& s) { R = parser::parse_string("version 3.0\n" + s + "\n", std::string("f.cq")); if (!R.errors.empty()) std::puts(R.errors[0].what()); return *R.root->as_program()->block->statements[0]; }
static const syn::Expression& operand(const std::string& e) { return *stmt("reset " + e).as_non_gate_instruction()->operands->items[0]; }
static std::string error(const std::string& t) { R = parser::parse_string(t, std::string("f.cq")); return R.errors.size() == 1 ? R.errors[0].what() : "none"; }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
go("w01-octal", "C24", "an integer literal with a leading zero", "integer literals with a leading zero are read as octal numbers",
   [(SA, "        return std::stoll(text);", "        return std::stoll(text, nullptr, 0);")], INC, main('CHECK(operand("7").as_integer_literal()->value == 7); CHECK(operand("010").as_integer_literal()->value == 10);'), SRCS)
go("w02-double-minus", "C24", "two unary minus signs in a row", "the syntactic analyzer folds a double negation away",
   [(SA, """    auto ret = tree::make<UnaryMinusExpression>(std::any_cast<One<Expression>>(context->expression()->accept(this)));
""", """    auto operand = std::any_cast<One<Expression>>(context->expression()->accept(this));
    if (auto minus = operand->as_unary_minus_expression()) {
        return minus->expr;
    }
    auto ret = tree::make<UnaryMinusExpression>(operand);
""")], INC, main('auto* m = operand("- -3").as_unary_minus_expression(); CHECK(m && m->expr->as_unary_minus_expression());'), SRCS)
go("w03-minor-position", "C24", "a version whose minor number exceeds 64 bits", "the error is reported at the start of the version instead of at the minor number",
   [(SA, "token->getCharPositionInLine() + matches.position(2), matches[2]", "token->getCharPositionInLine() + matches.position(1), matches[2]")], INC,
   main('CHECK(error("version 3.9223372036854775808").find("f.cq:1:11:") != std::string::npos); CHECK(error("version 9223372036854775808").find("f.cq:1:9:") != std::string::npos);'), SRCS)
go("w04-modified-gate", "C24", "an instruction with a gate modifier", "an instruction is located at the innermost gate instead of at its first modifier",
   [(SA, "    copyNodeAnnotation(ret->gate, ret);\n", "    auto gate = ret->gate;\n    while (!gate->gate.empty()) {\n        gate = One<Gate>{ gate->gate.get_ptr() };\n    }\n    copyNodeAnnotation(gate, ret);\n")], INC,
   main('CHECK(stmt("H q").get_annotation<Loc>().range.first.column == 1); CHECK(stmt("inv.X q").get_annotation<Loc>().range.first.column == 1);'), SRCS)
go("w05-eof-length", "C24", "a program that ends within a statement", "an error at the end of the text covers five columns that are not there",
   [(EL, "(offending_symbol && offending_symbol->getType() != antlr4::Token::EOF)", "(offending_symbol)")], INC,
   main('CHECK(error("version 3.0\\nqubit q\\nH q,").find("f.cq:3:5: ") != std::string::npos);'), SRCS)
go("w06-bracket-line", "C24", "an array type whose closing bracket is on a later line", "the location of a type ends on the line it begins on",
   [(SA, "            annotations::SourceLocation::Index{ static_cast<std::uint32_t>(token->getLine()),\n                static_cast<std::uint32_t>(token->getCharPositionInLine() + 1 + token_size) });",
         "            annotations::SourceLocation::Index{ source_location->range.last.line,\n                static_cast<std::uint32_t>(token->getCharPositionInLine() + 1 + token_size) });")], INC,
   main('auto& l = stmt("qubit[3 /*\\n*/ ] q").as_variable()->typ->get_annotation<Loc>(); CHECK(l.range.last.line == 3 && l.range.last.column == 5);'), SRCS)
