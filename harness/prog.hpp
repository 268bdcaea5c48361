// Runs whole programs through the real lexer, parser and analyzers.
#pragma once
#include <sys/resource.h>
#include "v3x.hpp"
#include "libqasm/v3x/analyzer.hpp"
namespace vx {
namespace analyzer = cqasm::v3x::analyzer;
inline const bool limited = [] { rlimit l{ 4ul << 30, 4ul << 30 }; return setrlimit(RLIMIT_AS, &l) == 0; }();   // an endless expansion fails here, not in the machine
inline analyzer::AnalysisResult run(const std::string& text, const std::string& file = "in.cq") {
    analyzer::Analyzer a;
    a.register_default_constants();
    a.register_default_functions();
    a.register_default_instructions();
    return a.analyze_string(text, file);
}
inline std::string errors_of(const analyzer::AnalysisResult& r) { std::string s; for (auto& e : r.errors) s += std::string(e.what()) + "; "; return s; }
inline size_t n_statements(const analyzer::AnalysisResult& r) { return r.root.empty() || r.root->block.empty() ? 0 : r.root->block->statements.size(); }
inline size_t n_variables(const analyzer::AnalysisResult& r) { return r.root.empty() ? 0 : r.root->variables.size(); }
// one statement after declarations: accepted (added, no error) or rejected (one error, nothing added)?
inline bool accepts(const std::string& declarations, const std::string& statement, analyzer::AnalysisResult* out = nullptr) {
    std::string text = "version 3.0\n" + declarations + statement + "\n";
    h::begin("program:\n" + text);
    auto r = run(text);
    if (out) *out = r;
    bool added = n_statements(r) == 1;
    H_REQUIRE(n_statements(r) <= 1, "more statements than written");
    H_REQUIRE(added == r.errors.empty(), added ? "a statement is added and an error reported: " + errors_of(r) : "a statement is dropped without an error");
    return added;
}
}  // namespace vx
