import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
SA = "src/v3x/semantic_analyzer.cpp"
AN = "src/v3x/analyzer.cpp"
SH = "include/libqasm/v3x/semantic_analyzer.hpp"
INC = ["libqasm/v3x/values.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/error.hpp"]
P = r"""
namespace analyzer = cqasm::v3x::analyzer;
using namespace cqasm::v3x;
static analyzer::AnalysisResult run_whole(const std::string& t) { analyzer::Analyzer a; a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); return a.analyze_string(t, "in.cq"); }
static analyzer::AnalysisResult run(const std::string& t) { return run_whole("version 3.0\n" + t); }
static size_t kept(const analyzer::AnalysisResult& r) { return r.root->block->statements.size(); }
static bool at(const analyzer::AnalysisResult& r, size_t i, int line) { std::string w = r.errors[i].what(), p = "Error at in.cq:" + std::to_string(line) + ":"; return w.compare(0, p.size(), p) == 0; }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
go("k01-stops-after-errors", "C22", "a statement after many faulty ones", "statements after the tenth error are no longer analyzed",
   [(SH, "        for (const auto& statement_ast : block.statements) {\n            try {", "        for (const auto& statement_ast : block.statements) {\n            if (result_.errors.size() > 9) {\n                break;\n            }\n            try {")],
   INC, main(r'std::string t = "qubit q\n"; for (int i = 0; i < 12; ++i) t += "H w\n"; t += "H q\n"; auto r = run(t); CHECK(r.errors.size() == 12); CHECK(kept(r) == 1);'), "ALL")
go("k02-block-location-last", "C22", "a statement on several columns that ends the block", "the block's location is extended to the start of a statement only",
   [(AN, "            block_sl->expand_to_include(statement_sl->range.first);\n            block_sl->expand_to_include(statement_sl->range.last);", "            block_sl->expand_to_include(statement_sl->range.first);\n            block_sl->expand_to_include(statement_sl->range.first);")],
   INC + ["libqasm/annotations.hpp"], main(r'auto r = run("qubit q\nX q\ninv.pow(2).Y q\n"); CHECK(r.errors.empty()); auto b = r.root->block->get_annotation_ptr<cqasm::annotations::SourceLocation>(); auto s = r.root->block->statements[1]->get_annotation_ptr<cqasm::annotations::SourceLocation>(); CHECK(b && s); CHECK(!(b->range.last < s->range.last)); CHECK(!(s->range.first < b->range.first));'), "ALL")
go("k03-rejected-name-taken", "C22", "a declaration of size zero followed by one of the same name", "the name of a declaration is taken before its type is known to be valid",
   [(SA, "        // Build semantic type from syntactic type\n", "        // Register the variable\n        analyzer_.register_variable(node.name->name, tree::make<values::VariableRef>(ret));\n\n        // Build semantic type from syntactic type\n"),
    (SA, "        // Register the variable\n        analyzer_.register_variable(identifier->name, tree::make<values::VariableRef>(ret));\n\n", "")],
   INC, main(r'auto r = run("qubit[0] q\nqubit q\nX q\n"); CHECK(r.errors.size() == 1); CHECK(at(r, 0, 2)); CHECK(r.root->variables.size() == 1); CHECK(kept(r) == 1);'), "ALL")
go("k04-error-unlocated", "C22", "a non-gate instruction whose operands fit no overload", "the error of a non-gate instruction gets no location",
   [(SA, "        // Add the statement to the current scope\n        analyzer_.add_statement_to_current_scope(ret);\n    } catch (error::AnalysisError& err) {\n        err.context(node);\n        result_.errors.push_back(std::move(err));\n        ret.reset();\n    }\n    return ret;\n}\n\nstd::any SemanticAnalyzer::visit_asm", "        // Add the statement to the current scope\n        analyzer_.add_statement_to_current_scope(ret);\n    } catch (error::AnalysisError& err) {\n        result_.errors.push_back(std::move(err));\n        ret.reset();\n    }\n    return ret;\n}\n\nstd::any SemanticAnalyzer::visit_asm")],
   INC, main(r'auto r = run("qubit q\nbit b\nreset b\nX q\n"); CHECK(r.errors.size() == 1); CHECK(at(r, 0, 4)); CHECK(kept(r) == 1);'), "ALL")
go("k05-asm-dropped", "C22", "an assembly declaration first in a block with other statements", "a statement without location is kept only in a block that has none",
   [(AN, "    // Add the statement to the current block\n    current_block()->statements.add(statement);\n", "    // Add the statement to the current block\n    if (statement->get_annotation_ptr<parser::SourceLocation>() || !current_block()->get_annotation_ptr<parser::SourceLocation>()) {\n        current_block()->statements.add(statement);\n    }\n")],
   INC, main(r'''auto r = run("asm(B) \'\'\' x \'\'\'\nqubit q\nX q\nasm(B) \'\'\' x \'\'\'\n"); CHECK(r.errors.empty()); CHECK(kept(r) == 3);'''.replace("\\'", "'")), "ALL")
W = r"""
static std::string text(const cqasm::version::Version& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
static bool ok(const std::string& v) { auto r = run_whole("version " + v + "\nqubit q\n"); return r.errors.empty() && r.root->variables.size() == 1; }
"""
main2 = lambda body: P + W + "int main() { " + body + " return 0; }\n"
go("l01-newer-only", "C23", "a file of an older version", "only versions newer than the supported one are refused",
   [(SA, "if (node.items != analyzer_.api_version) {", "if (node.items > analyzer_.api_version) {")],
   INC, main2(r'CHECK(!ok("2.9")); CHECK(!ok("3.1")); CHECK(ok("3")); CHECK(ok("3.0"));'), "ALL")
go("l02-refused-version-kept", "C23", "a file of another version", "a refused version is still stated as the version of the tree",
   [(SA, "            ret->items = node.items;\n        } catch".replace("            ", "        ", 1).replace("        } catch", "    } catch"), "    } catch"), (SA, "        // Default to API version in case the version in the AST is broken\n        ret->items = analyzer_.api_version;\n    }\n", "    }\n    ret->items = node.items;\n")],
   INC, main2(r'auto r = run_whole("version 2.9\n"); CHECK(r.errors.size() == 1); CHECK(text(r.root->version->items) == "3.0"); CHECK(ok("3"));'), "ALL")
go("l03-refused-unlocated", "C23", "a file of another version", "a refused version gets no location",
   [(SA, "        ret->items = node.items;\n    } catch", "        ret->items = node.items;\n        ret->copy_annotation<parser::SourceLocation>(node);\n    } catch"), (SA, "        ret->items = analyzer_.api_version;\n    }\n    ret->copy_annotation<parser::SourceLocation>(node);\n", "        ret->items = analyzer_.api_version;\n    }\n")],
   INC + ["libqasm/annotations.hpp"], main2(r'auto r = run_whole("version 2.9\n"); CHECK(r.errors.size() == 1); CHECK(r.root->version->get_annotation_ptr<cqasm::annotations::SourceLocation>()); CHECK(ok("3"));'), "ALL")
go("l04-api-version", "C23", "an analyzer asked for version 3.1", "an analyzer may be asked for newer versions than 3.0",
   [(AN, 'if (api_version != "3.0") {', 'if (api_version < "3.0") {')],
   INC, main2(r'bool refused = false; try { analyzer::Analyzer a("3.1"); } catch (const std::exception&) { refused = true; } CHECK(refused); analyzer::Analyzer b("3"); CHECK(text(b.api_version) == "3");'), "ALL")
go("l05-api-version-from-file", "C23", "a file that writes the version as 3", "the tree states the version of the file as its API version",
   [(SA, "    result_.root->version = std::any_cast<tree::One<semantic::Version>>(visit_version(*program_ast.version));\n", "    result_.root->version = std::any_cast<tree::One<semantic::Version>>(visit_version(*program_ast.version));\n    result_.root->api_version = result_.root->version->items;\n")],
   INC, main2(r'auto r = run_whole("version 3\n"); CHECK(r.errors.empty()); CHECK(text(r.root->api_version) == "3.0"); CHECK(text(r.root->version->items) == "3");'), "ALL")
