import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
AN = "src/v3x/analyzer.cpp"
SA = "src/v3x/semantic_analyzer.cpp"
RS = "src/v3x/resolver.cpp"
INC = ["libqasm/v3x/semantic.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/v3x/analysis_result.hpp", "libqasm/v3x/parse_helper.hpp", "libqasm/v3x/parse_result.hpp", "libqasm/error.hpp", "sstream"]
P = r"""
namespace analyzer = cqasm::v3x::analyzer;
using namespace cqasm::v3x;
static void defaults(analyzer::Analyzer& a) { a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); }
static std::string show(const analyzer::AnalysisResult& r) { std::ostringstream s; for (auto& e : r.errors) s << e.what() << "\n"; if (!r.root.empty()) s << *r.root; return s.str(); }
static std::string fresh(const std::string& t) { analyzer::Analyzer a; defaults(a); return show(a.analyze_string("version 3.0\n" + t, "in.cq")); }
static std::string with(analyzer::Analyzer& a, const std::string& t) { return show(a.analyze_string("version 3.0\n" + t, "in.cq")); }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
go("q01-values-cached", "C28", "two programs that use the same expression of a function call", "the value of a function call with constants is computed once, and the node is shared by every program that uses it",
   [(RS, '    if (auto entry = table.find(name); entry != table.end()) {\n        return entry->second->clone();', '    if (auto entry = table.find(name); entry != table.end()) {\n        return entry->second;')],
   INC, main(r'analyzer::Analyzer a; defaults(a); auto r1 = a.analyze_string("version 3.0\nqubit q\nRx(pi) q\n", "in.cq"); auto l1 = [&] { std::ostringstream s; s << *r1.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->get_annotation_ptr<cqasm::annotations::SourceLocation>(); return s.str(); }; std::string before = l1(); auto r2 = a.analyze_string("version 3.0\n\n\nqubit q\n   Rx(pi) q\n", "other.cq"); CHECK(r2.errors.empty()); CHECK(l1() == before);'), "ALL") if 0 else None
go("q02-names-cached", "C28", "two programs that declare a qubit of the same name with other sizes", "the variables of a program are looked up by name in a cache that outlives the analysis",
   [(SA, "std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {\n    auto ret = tree::make<semantic::Variable>();\n", "std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {\n    static std::map<std::string, tree::One<semantic::Variable>> known;\n    auto& ret = known.try_emplace(node.name->name, tree::make<semantic::Variable>()).first->second;\n    if (ret.empty()) {\n        ret = tree::make<semantic::Variable>();\n    }\n"), (SA, "#include <any>\n", "#include <any>\n#include <map>\n")],
   INC, main(r'analyzer::Analyzer a; defaults(a); auto r = a.analyze_string("version 3.0\nqubit[3] q\n", "in.cq"); std::string t = show(r); with(a, "qubit q\n"); CHECK(show(r) == t);'), "ALL")
go("q03-errors-kept", "C28", "a program with an error, analyzed after another", "semantic errors of earlier analyses are reported again when a later program has one",
   [(SA, "        // Specific checks\n        check_gate_instruction(ret);" if 0 else "    result_.root->variables = variables;\n    return result_;", "    result_.root->variables = variables;\n    static error::AnalysisErrors seen;\n    if (!result_.errors.empty()) {\n        seen.insert(seen.end(), result_.errors.begin(), result_.errors.end());\n        result_.errors = seen;\n    }\n    return result_;")],
   INC, main(r'analyzer::Analyzer a; defaults(a); CHECK(with(a, "qubit q\nH w\n") == fresh("qubit q\nH w\n")); '.replace("fresh(", "with(a, ") if 0 else r'std::string f = fresh("qubit q\n"); analyzer::Analyzer a; defaults(a); auto n = [&](const std::string& t) { return a.analyze_string("version 3.0\n" + t, "in.cq").errors.size(); }; CHECK(n("qubit q\n") == 0); CHECK(n("qubit q\nH w\n") == 1); CHECK(n("qubit q\n") == 0); CHECK(n("qubit q\nX v\n") == 1);'), "ALL")
go("q04-resolutions-cached", "C28", "two programs that call the same function with constants of the same type", "the results of constant functions are cached by name and types of the operands",
   [(AN, "    return global_scope().consteval_core_function_table.resolve(name, args);", "    static std::map<std::string, values::Value> cache;\n    const auto key = fmt::format(\"{}({})\", name, args);\n    if (auto it = cache.find(key); it != cache.end()) {\n        return it->second;\n    }\n    return cache[key] = global_scope().consteval_core_function_table.resolve(name, args);"), (AN, "#include <memory>  // make_unique\n", "#include <map>\n#include <memory>  // make_unique\n")],
   INC, main(r'analyzer::Analyzer a; defaults(a); auto r1 = a.analyze_string("version 3.0\nqubit q\nRx(sin(0.5)) q\n", "in.cq"); auto l1 = [&] { std::ostringstream s; s << *r1.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->get_annotation_ptr<cqasm::annotations::SourceLocation>(); return s.str(); }; std::string before = l1(); auto r2 = a.analyze_string("version 3.0\n\n\nqubit q\n   Rx(sin(0.5)) q\n", "other.cq"); CHECK(r2.errors.empty()); CHECK(l1() == before);'), "ALL")
