// One analyzer, many programs: each analysis is compared with that of an analyzer that never analyzed anything.
#include "prog.hpp"
#include <sstream>
#include "libqasm/v3x/parse_helper.hpp"
using namespace vx;
static std::string at(const cqasm::annotations::SourceLocation* l) { std::ostringstream s; if (l) s << *l; else s << "nowhere"; return s.str(); }
static std::string show(const analyzer::AnalysisResult& r) {
    std::string s = errors_of(r) + "\n";
    if (r.root.empty()) return s + "no tree";
    std::ostringstream t; t << *r.root;
    s += t.str();
    if (!r.root->block.empty()) {
        s += " block at " + at(r.root->block->get_annotation_ptr<cqasm::annotations::SourceLocation>());
        for (const auto& x : r.root->block->statements) {
            s += "\n statement at " + at(x->get_annotation_ptr<cqasm::annotations::SourceLocation>());
            auto values = [&](const auto& vs) { for (const auto& v : vs) s += " value at " + at(v->template get_annotation_ptr<cqasm::annotations::SourceLocation>()); };
            if (auto g = x->as_gate_instruction()) { values(g->operands); values(g->gate->parameters); }
            if (auto g = x->as_non_gate_instruction()) { values(g->operands); values(g->parameters); }
        }
    }
    for (const auto& x : r.root->variables) s += "\n variable at " + at(x->get_annotation_ptr<cqasm::annotations::SourceLocation>());
    return s;
}
// a set-up: what is registered or added before the first analysis
static void set_up(analyzer::Analyzer& a, unsigned how) {
    if (how & 1) a.register_default_constants();
    if (how & 2) a.register_default_functions();
    if (how & 4) a.register_default_instructions();
    if (how & 8) a.register_variable("answer", vx::tree::make<values::ConstInt>(42));
    if (how & 16) a.register_instruction("own", "QV");
    if (how & 32) {
        auto s = vx::tree::make<semantic::AsmDeclaration>();
        s->backend_name = "set-up"; s->backend_code = "code";
        s->set_annotation(cqasm::annotations::SourceLocation{ std::string("setup.cq"), { { 2, 3 }, { 2, 9 } } });
        a.add_statement_to_current_scope(s);
    }
    if (how & 64) {
        auto v = vx::tree::make<semantic::Variable>("w", vx::tree::make<types::Qubit>(cqasm::v3x::primitives::Int{ 1 }));
        a.add_variable_to_current_scope(v);
        a.register_variable("w", vx::tree::make<values::VariableRef>(v));
    }
    if (how & 128) { a.push_scope(); a.register_variable("inner", vx::tree::make<values::ConstInt>(1)); }
}
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    for (int i = 0; i < (h::thorough ? 20000 : 900) && h::time_left(); ++i) {
        unsigned how = r.below(3) ? 7 | (r.below(32) << 3) : r.below(256);
        analyzer::Analyzer used;
        set_up(used, how);
        std::string history;
        std::vector<std::pair<analyzer::AnalysisResult, std::string>> before;
        size_t n = 2 + r.below(r.below(40) ? 4 : 40);
        for (size_t k = 0; k < n; ++k) {
            std::string text = r.below(12) ? "version 3.0\n" : "version 3.1\n";
            const char* names[] = { "q", "b", "r", "answer", "w", "pi", "inner" };
            const char* gates[] = { "H", "X", "own", "Rx(1)", "inv.S", "Nothing" };
            std::vector<std::string> qs;
            size_t m = r.below(r.below(40) ? 6 : 80);
            for (size_t j = 0; j < m; ++j) {
                std::string nm = names[r.below(7)];
                std::string use = qs.empty() || r.below(3) == 0 ? nm : qs[r.below(qs.size())];
                switch (r.below(6)) {
                case 0: case 1: text += std::string(r.below(4) ? "qubit" : "bit") + (r.below(2) ? "[2] " : r.below(6) ? " " : "[0] ") + nm + "\n"; qs.push_back(nm); break;
                case 2: case 3: text += std::string(gates[r.below(6)]) + " " + use + "\n"; break;
                case 4: text += "asm(Backend) ''' code " + std::to_string(k) + " '''\n"; break;
                case 5: text += r.below(2) ? "reset " + use + "\n" : std::string(r.below(2) ? "   " : "") + "Rx(" + (r.below(2) ? nm : r.below(2) ? "sin(0.5)" : "1 + 2") + ") " + use + "\n"; break;
                }
            }
            if (r.below(15) == 0) text += "qubit qubit\n";      // a syntax error
            history += "--- program " + std::to_string(k) + ":\n" + text;
            h::begin("set-up " + std::to_string(how) + ", one analyzer for\n" + history);
            analyzer::Analyzer fresh;
            set_up(fresh, how);
            auto first = used.analyze_string(text, "in.cq");
            std::string want = show(fresh.analyze_string(text, "in.cq")), got = show(first);
            before.emplace_back(first, got);
            H_REQUIRE(got == want, "after other programs the result is\n" + got + "\nbut with a fresh analyzer it is\n" + want);
            auto again = cqasm::v3x::parser::parse_string(text, "in.cq");
            got = show(used.analyze(again));
            H_REQUIRE(got == want, "analyzing the same program twice gives\n" + got + "\nafter\n" + want);
            if (again.errors.empty()) {
                got = show(used.analyze(*again.root->as_program()));
                H_REQUIRE(got == want, "analyzing the same tree twice gives\n" + got + "\nafter\n" + want);
            }
            for (const auto& [r0, s0] : before) H_REQUIRE(show(r0) == s0, "a result handed out before is changed to\n" + show(r0) + "\nfrom\n" + s0);
        }
    }
    return h::done();
}
