import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
PY = "src/v3x/cqasm_python.cpp"
CQ = "src/v3x/cqasm.cpp"
AN = "src/v3x/analyzer.cpp"
INC = ["libqasm/v3x/cqasm.hpp", "libqasm/v3x/cqasm_python.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/v3x/analysis_result.hpp", "libqasm/v3x/parse_helper.hpp", "libqasm/v3x/parse_result.hpp", "libqasm/error.hpp", "sstream", "fstream", "filesystem"]
P = r"""
namespace analyzer = cqasm::v3x::analyzer; namespace parser = cqasm::v3x::parser;
using namespace cqasm::v3x;
static analyzer::Analyzer core() { analyzer::Analyzer a; a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); return a; }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
ANALYZE = """    const auto& parse_result = v3x::parser::parse_string(data, file_name_op);
    const auto& analysis_result = analyzer->analyze(parse_result);
    return analysis_result.to_json();
}"""
SIG = "[[nodiscard]] std::string V3xAnalyzer::analyze_string_to_json(\n    const std::string& data, const std::string& file_name) const {\n    auto file_name_op = !file_name.empty() ? std::optional<std::string>{ file_name } : std::nullopt;\n"
go("t01-json-parse-only", "C26", "the JSON of an analysis with instructions registered by the user", "analyze_string_to_json analyzes with a default analyzer, without the registered instructions",
   [(PY, SIG + ANALYZE, SIG + ANALYZE.replace("analyzer->analyze(parse_result)", 'v3x::default_analyzer("3.0").analyze(parse_result)'))],
   INC, main(r'V3xAnalyzer v; analyzer::Analyzer a = core(); std::string t = "version 3.0\nqubit q\nH q\n"; CHECK(v.analyze_string_to_json(t, "f") == a.analyze_string(t, "f").to_json()); v.register_instruction("H", std::optional<std::string>{ "QQ" }); a.register_instruction("H", std::optional<std::string>{ "QQ" }); t += "qubit r\nH q, r\n"; CHECK(v.analyze_string_to_json(t, "f") == a.analyze_string(t, "f").to_json());'), "ALL")
go("t02-constants-missing", "C26", "a program that uses a constant, with an analyzer without default instructions", "the binding without default instructions does not register the constants either",
   [(PY, "        analyzer = std::make_unique<v3x::analyzer::Analyzer>(max_version);\n        analyzer->register_default_constants();\n", "        analyzer = std::make_unique<v3x::analyzer::Analyzer>(max_version);\n")],
   INC, main(r'V3xAnalyzer v("3.0", true); v.register_instruction("Rx", std::optional<std::string>{ "Q" }); CHECK(v.analyze_string("version 3.0\nqubit q\nRx(3.0) q\n").size() == 1); CHECK(v.analyze_string("version 3.0\nqubit q\nRx(pi) q\n").size() == 1);'), "ALL")
go("t03-name-of-string", "C26", "an error in a program given as a string with a file name", "analyze_string of the convenience API drops the file name from errors",
   [(CQ, "    const auto& parse_result = cqasm::v3x::parser::parse_string(data, file_name);\n", "    const auto& parse_result = cqasm::v3x::parser::parse_string(data, std::nullopt);\n")],
   INC, main(r'std::ostringstream e; auto* old = std::cerr.rdbuf(e.rdbuf()); try { cqasm::v3x::analyze_string("version 3.0\nH w\n", std::string("my.cq")); } catch (const analyzer::AnalysisFailed&) {} std::cerr.rdbuf(old); CHECK(e.str().find("my.cq:2:") != std::string::npos);'), "ALL")
go("t04-crlf", "C26", "a text with carriage returns", "the binding removes carriage returns from the text before analyzing it",
   [(PY, "std::vector<std::string> V3xAnalyzer::analyze_string(const std::string& data, const std::string& file_name) const {\n", "std::vector<std::string> V3xAnalyzer::analyze_string(const std::string& text, const std::string& file_name) const {\n    auto data = text;\n    std::erase(data, '\\r');\n")],
   INC, main(r"""V3xAnalyzer v; auto a = core(); std::string t = "version 3.0\nqubit q\nasm(B) ''' a \r b '''\n"; CHECK(v.analyze_string(t, "f") == a.analyze_string(t, std::string("f")).to_strings());"""), "ALL")
