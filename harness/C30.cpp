#include <set>
#include "consteval.hpp"
using namespace ce;
static bool known(analyzer::Analyzer& a, const std::string& n, const Args& args, bool& name_known) {
    values::Values vs; for (auto& x : args) vs.add(val(x));
    name_known = true;
    try { (void)a.resolve_function(n, vs); return true; }
    catch (const cqasm::v3x::resolver::NameResolutionFailure&) { name_known = false; return false; }
    catch (const cqasm::v3x::resolver::OverloadResolutionFailure&) { return false; }
    catch (const cqasm::error::AnalysisError&) { return true; }     // an implementation refused the operands
}
int main(int c, char** a) {
    h::init(c, a);
    std::map<std::string, K> consts{ { "true", kb(true) }, { "false", kb(false) }, { "pi", kf(3.14159265358979323846) }, { "eu", kf(2.71828182845904523536) }, { "tau", kf(6.28318530717958647693) } };
    for (auto& [n, k] : consts) {
        h::begin("constant " + n);
        K g{ 'e', false, 0, 0 };
        try { g = konst(an().resolve_variable(n)); } catch (const cqasm::error::AnalysisError&) {}
        H_REQUIRE(same(g, k), "is " + show(g) + " instead of " + show(k));
    }
    for (auto n : { "im", "e", "Pi", "PI", "TRUE", "True", "i", "inf", "nan", "", "q", "True ", "eu ", "phi" }) {
        h::begin(std::string("name ") + h::show(n) + " that no constant has");
        bool ok = true; try { (void)an().resolve_variable(n); } catch (const cqasm::error::AnalysisError&) { ok = false; }
        H_REQUIRE(!ok, "resolves");
    }
    std::set<std::string> names;
    for (auto& f : functions()) names.insert(f.name);
    for (auto n : { "operator", "operator===", "Sqrt", "ceil", "floor", "pow", "operator~~", "log10", "min", "operator?", "operator and", "exp2", "atan2", "round" }) names.insert(n);
    for (auto& d : h::dict) if (d.size() < 14) names.insert(d);
    const char* kinds = "bif";
    K samples[3][3] = { { kb(true), kb(false), kb(true) }, { ki(3), ki(5), ki(-2) }, { kf(0.25), kf(0.75), kf(-1.5) } };
    for (auto& n : names) for (int len = 0; len <= 4; ++len) {
        int total = 1; for (int i = 0; i < len; ++i) total *= 3;
        for (int t = 0; t < total; ++t) for (int s = 0; s < 3; ++s) {
            Args v; int x = t; for (int i = 0; i < len; ++i, x /= 3) v.push_back(samples[x % 3][(i + s) % 3]);
            auto f = pick(n, v);
            h::begin(call(n, v));
            bool nk, ok = known(an(), n, v, nk);
            bool has = false; for (auto& g : functions()) has |= g.name == n;
            H_REQUIRE(ok == !!f, f ? "is refused" : "is accepted");
            if (!f) H_REQUIRE(nk == has, has ? "is called an unknown function" : "is not called an unknown function");
            if (!f) continue;
            K w = expected(n, v), g = actual(n, v);
            H_REQUIRE(same(g, w), "gives " + show(g) + " instead of " + show(w));
        }
    }
    (void)kinds;
    // the defaults reach nested scopes, and only the analyzer they were registered with
    analyzer::Analyzer fresh("3.0");
    h::begin("an analyzer without defaults");
    bool nk; H_REQUIRE(!known(fresh, "operator+", { ki(1), ki(2) }, nk), "knows operator+");
    bool ok = true; try { (void)fresh.resolve_variable("pi"); } catch (const cqasm::error::AnalysisError&) { ok = false; }
    H_REQUIRE(!ok, "knows pi");
    analyzer::Analyzer nest("3.0"); nest.register_default_constants(); nest.register_default_functions(); nest.push_scope();
    h::begin("nested scope");
    H_REQUIRE(known(nest, "operator+", { ki(1), ki(2) }, nk), "does not know operator+");
    H_REQUIRE(same(konst(nest.resolve_variable("pi")), kf(M_PI)), "does not know pi");
    analyzer::Analyzer inner("3.0"); inner.push_scope(); inner.register_default_functions(); inner.pop_scope();
    h::begin("defaults registered in a nested scope");
    H_REQUIRE(known(inner, "sqrt", { kf(4) }, nk), "are gone with it");
    return h::done();
}
