import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
RH = "include/libqasm/result.hpp"
AR = "src/v3x/analysis_result.cpp"
INC = ["libqasm/v3x/semantic.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/v3x/analysis_result.hpp", "libqasm/v3x/parse_result.hpp", "libqasm/error.hpp", "sstream"]
P = r"""
namespace analyzer = cqasm::v3x::analyzer;
using namespace cqasm::v3x;
static analyzer::AnalysisResult run(const std::string& t) { analyzer::Analyzer a; a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); return a.analyze_string("version 3.0\n" + t, "in.cq"); }
static bool throws(const analyzer::AnalysisResult& r, std::string& text) { std::ostringstream o; try { r.unwrap(o); } catch (const analyzer::AnalysisFailed&) { text = o.str(); return true; } text = o.str(); return false; }
static size_t count(const std::string& s, const std::string& p) { size_t n = 0; for (size_t i = s.find(p); i != std::string::npos; i = s.find(p, i + 1)) ++n; return n; }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
go("m01-json-of-faulty-tree", "C11", "a program with a semantic error", "the JSON is that of the tree whenever there is one",
   [(RH, "return (result.errors.empty()) ? root_to_json", "return (!result.root.empty()) ? root_to_json")],
   INC, main(r'CHECK(run("qubit q\nH w\n").to_json().find("{\"errors\":[{") == 0); CHECK(run("qubit q\n").to_json().find("\"errors\"") == std::string::npos);'), "ALL")
go("m02-tree-and-errors", "C11", "a program with a semantic error", "the strings of a result with errors hold the tree as well",
   [(RH, "    if (result.errors.empty()) {\n        ret[0] = ::tree::base::serialize(result.root);\n    } else {", "    if (!result.root.empty()) {\n        ret[0] = ::tree::base::serialize(result.root);\n    }\n    if (!result.errors.empty()) {")],
   INC, main(r'auto s = run("qubit q\nH w\n").to_strings(); CHECK(s.size() == 2); CHECK(s[0].empty()); CHECK(!run("qubit q\n").to_strings()[0].empty());'), "ALL")
go("m03-unwrap-tree", "C11", "unwrapping a program with a semantic error", "unwrapping succeeds if any statement was accepted",
   [(AR, "    if (errors.empty()) {", "    if (errors.empty() || (!root.empty() && !root->block.empty() && !root->block->statements.empty())) {")],
   INC, main(r'std::string t; CHECK(throws(run("qubit q\nH q\nH w\n"), t)); CHECK(count(t, "Error at") == 1); CHECK(throws(run("qubit q\nH w\n"), t)); CHECK(!throws(run("qubit q\nH q\n"), t));'), "ALL")
go("m04-many-errors", "C11", "a program with more than 32 errors", "the JSON of the errors stops after the first 32",
   [(RH, "    return fmt::format(R", "    const Errors first_errors(errors.begin(), errors.begin() + (errors.size() > 32 ? 32 : errors.size()));\n    return fmt::format(R"), (RH, "fmt::join(errors | ranges", "fmt::join(first_errors | ranges")],
   INC, main(r'std::string t; for (int i = 0; i < 40; ++i) t += "H w\n"; CHECK(count(run(t).to_json(), "\"severity\"") == 40); CHECK(count(run("H w\nH v\n").to_json(), "\"severity\"") == 2);'), "ALL")
go("m05-repeated-errors", "C11", "two errors with the same text", "strings of a result leave out an error that repeats the text of the one before",
   [(RH, "    return ret;\n}\n\ntemplate <typename Errors>", "    ret.erase(std::unique(ret.begin(), ret.end()), ret.end());\n    return ret;\n}\n\ntemplate <typename Errors>")],
   INC, main(r'auto r = run("qubit q\n"); r.errors.emplace_back("twice"); r.errors.emplace_back("twice"); r.errors.emplace_back("once"); CHECK(r.to_strings().size() == 4); CHECK(r.to_strings()[3] == r.errors[2].what());'), "ALL")
