#include "v3x.hpp"
#include "libqasm/v3x/analyzer.hpp"
using namespace vx;
namespace analyzer = cqasm::v3x::analyzer;
namespace resolver = cqasm::v3x::resolver;
struct An : analyzer::Analyzer {
    using analyzer::Analyzer::Analyzer;
    vx::tree::Any<semantic::Variable> vars_of(int i) { auto it = scope_stack_.begin(); std::advance(it, i); return it->variables; }
    size_t depth() { return scope_stack_.size(); }
};
using Model = std::vector<std::map<std::string, std::string>>;    // innermost last
static std::string lookup(const Model& m, const std::string& n) { for (auto s = m.rbegin(); s != m.rend(); ++s) if (s->count(n)) return s->at(n); return ""; }
int main(int c, char** a) {
    h::init(c, a);
    h::Rng r(h::seed);
    std::vector<std::string> names{ "a", "A", "b", "ab", "aB", "q", "", "x_1", "pi", std::string("a\0b", 3) };
    for (auto& d : h::dict) if (d.size() < 12) names.push_back(d);
    auto vs = sample_values();
    for (int i = 0; i < (h::thorough ? 30000 : 4000) && h::time_left(); ++i) {
        An an;
        Model m(1);
        std::vector<std::vector<std::string>> vl(1);
        std::string log = "fresh analyzer:";
        size_t pool = 2 + r.below(names.size() - 1);
        for (int k = 0, n = 4 + r.below(r.below(12) ? 40 : 400); k < n; ++k) {
            auto& name = names[r.below(pool)];
            switch (r.below(6)) {
                case 0: an.push_scope(); m.emplace_back(); vl.emplace_back(); log += " push"; break;
                case 1: if (m.size() > 1) { an.pop_scope(); m.pop_back(); vl.pop_back(); log += " pop"; } break;
                case 2: {
                    auto v = vx::tree::make<semantic::Variable>(name, type(r.below(7), 3));
                    log += " variable " + name; an.add_variable_to_current_scope(v); vl.back().push_back(name); break;
                }
                default: {
                    auto& v = vs[r.below(vs.size())];
                    log += " declare " + h::show(name);
                    h::begin(log);
                    bool ok = true;
                    try { an.register_variable(name, v); } catch (const cqasm::error::AnalysisError&) { ok = false; }
                    H_REQUIRE(ok == !m.back().count(name), ok ? "a second declaration in one scope is accepted" : "a declaration is rejected");
                    if (ok) m.back()[name] = vx::show(v);
                }
            }
            h::begin(log);
            H_REQUIRE(an.depth() == m.size(), "another number of scopes");
            for (size_t s = 0; s < m.size(); ++s) {
                auto w = an.vars_of(m.size() - 1 - s);
                H_REQUIRE(w.size() == vl[s].size(), "another number of variables in a scope");
                for (size_t j = 0; j < w.size(); ++j) H_REQUIRE(w[j]->name == vl[s][j], "variables out of order");
            }
            for (size_t q = 0; q < pool; ++q) {
                std::string want = lookup(m, names[q]), got;
                try {
                    auto v = an.resolve_variable(names[q]);
                    got = vx::show(v);
                    // a copy: changing it must not change the declaration
                    if (auto x = v->as_const_int()) x->value ^= 5;
                    if (auto x = v->as_const_bool()) x->value = !x->value;
                    if (auto x = v->as_const_float()) x->value = 42.5;
                    v->set_annotation<Loc>(Loc("f", Loc::Range({ 1, 1 }, { 1, 2 })));
                } catch (const cqasm::error::AnalysisError&) { got = ""; }
                H_REQUIRE(got == want, h::show(names[q]) + " resolves to " + (got.empty() ? "nothing" : got) + " instead of " + (want.empty() ? "nothing" : want));
            }
        }
    }
    for (int i = 0; i < 500; ++i) {     // a table alone, and its copies
        resolver::VariableTable t; std::map<std::string, std::string> m;
        for (int k = 0; k < 12; ++k) {
            auto& n = names[r.below(names.size())]; auto& v = vs[r.below(vs.size())];
            h::begin("table: add " + h::show(n));
            bool ok = true;
            try { t.add(n, v); } catch (const resolver::NameResolutionFailure&) { ok = false; }
            H_REQUIRE(ok == !m.count(n), "a second declaration is accepted or a first one rejected");
            if (ok) m[n] = vx::show(v);
            auto u = t;
            for (auto& x : names) { std::string got; try { got = vx::show(u.resolve(x)); } catch (const resolver::NameResolutionFailure&) {} H_REQUIRE(got == (m.count(x) ? m[x] : ""), h::show(x) + " resolves to " + got); }
        }
    }
    return h::done();
}
