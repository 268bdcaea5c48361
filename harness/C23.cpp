// Versions in the source text and in hand-made trees against the supported version.
#include "prog.hpp"
#include "libqasm/v3x/semantic_analyzer.hpp"
#include "libqasm/v3x/syntactic.hpp"
#include <sstream>
using namespace vx;
using Items = std::vector<long long>;
static std::string show(const Items& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ".") + std::to_string(x); return s.empty() ? "(none)" : s; }
static bool supported(const Items& v) { for (size_t i = 0; i < v.size() || i < 2; ++i) if ((i < v.size() ? v[i] : 0) != (i == 0 ? 3 : 0)) return false; return true; }
static cqasm::version::Version make(const Items& v) { cqasm::version::Version r; for (auto x : v) r.push_back(x); return r; }
static Items items(const cqasm::version::Version& v) { return Items(v.begin(), v.end()); }
static void check(const analyzer::AnalysisResult& r, const Items& file, const Items& api, const std::string& where) {
    bool good = supported(file);
    H_REQUIRE(good == r.errors.empty(), good ? "the supported version is refused: " + errors_of(r) : "another version is accepted");
    H_REQUIRE(good || r.errors.size() == 1, "one version, but " + std::to_string(r.errors.size()) + " errors");
    if (!good) H_REQUIRE(std::string(r.errors[0].what()).compare(0, where.size(), where) == 0, "the error is not located at the version: " + std::string(r.errors[0].what()));
    H_REQUIRE(!r.root.empty(), "no tree");
    H_REQUIRE(items(r.root->api_version) == api, "the API version is " + show(items(r.root->api_version)));
    H_REQUIRE(!r.root->version.empty() && items(r.root->version->items) == (good ? file : api), "the version of the tree is " + (r.root->version.empty() ? "missing" : show(items(r.root->version->items))));
    auto l = r.root->version->get_annotation_ptr<cqasm::annotations::SourceLocation>();
    H_REQUIRE(l, "the version has no location");
    std::ostringstream s; s << "Error at " << *l << ":";
    H_REQUIRE(s.str().compare(0, where.size(), where) == 0, "the version is located elsewhere: " + s.str());
}
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    // the analyzer itself supports 3.0, however it is written
    const std::vector<Items> some{ {}, { 3 }, { 3, 0 }, { 3, 0, 0 }, { 3, 0, 0, 0, 0, 0 }, { 3, 0, 1 }, { 3, 1 }, { 2 }, { 2, 9 }, { 4 }, { 0 }, { 0, 3 }, { 30 }, { 3, 0, 0, 0, 0, 0, 0, 0, 7 }, { 4294967299ll }, { 3, 4294967296ll }, { -3 }, { 3, -1 }, { 3, 0, -1 }, { 3, 256 }, { 259 }, { 9223372036854775807ll, 0 } };
    for (auto& v : some) {
        h::begin("analyzer for version " + show(v));
        bool refused = false;
        try { analyzer::Analyzer a(make(v)); H_REQUIRE(items(a.api_version) == v, "the supported version is another one"); } catch (const std::invalid_argument&) { refused = true; }
        H_REQUIRE(refused == !supported(v), refused ? "refused" : "accepted");
    }
    auto tree = [](const Items& v, unsigned line, unsigned col, const Items& api) {
        analyzer::Analyzer a(make(api));
        a.register_default_constants(); a.register_default_functions(); a.register_default_instructions();
        auto p = vx::tree::make<cqasm::v3x::syntactic::Program>();
        p->version = vx::tree::make<cqasm::v3x::syntactic::Version>();
        p->version->items = make(v);
        p->version->set_annotation<cqasm::annotations::SourceLocation>(cqasm::annotations::SourceLocation(std::string("f.cq"), { { line, col }, { line, col + 3 } }));
        p->block = vx::tree::make<cqasm::v3x::syntactic::GlobalBlock>();
        return a.analyze(*p);
    };
    const std::vector<Items> apis{ { 3, 0 }, { 3 }, { 3, 0, 0, 0 } };
    for (auto& api : apis) for (auto& v : some) {
        h::begin("tree of version " + show(v) + ", analyzer for version " + show(api));
        check(tree(v, 2, 5, api), v, api, "Error at f.cq:2:5..8:");
    }
    for (int i = 0; i < (h::thorough ? 200000 : 8000) && h::time_left(); ++i) {
        Items v, api = apis[r.below(3)];
        for (size_t k = 0, n = r.below(7); k < n; ++k) v.push_back(r.below(4) ? (k == 0 ? 3 : 0) : (long long)r.below(5) - 1);
        h::begin("tree of version " + show(v) + ", analyzer for version " + show(api));
        unsigned line = 1 + r.below(50), col = 1 + r.below(50);
        check(tree(v, line, col, api), v, api, "Error at f.cq:" + std::to_string(line) + ":" + std::to_string(col) + ".." + std::to_string(col + 3) + ":");
    }
    for (int i = 0; i < (h::thorough ? 4000 : 300) && h::time_left(); ++i) {
        Items v{ (long long)(r.below(3) ? 3 : r.below(7)) };
        if (r.below(3)) v.push_back(r.below(3) ? 0 : r.below(12));
        std::string t = show(v), text, sp(r.below(3), ' ');
        unsigned line = 1;
        for (size_t k = r.below(3); k-- > 0; ++line) text += "\n";
        text += sp + "version " + t + "\nqubit q\nX q\n";
        h::begin("program:\n" + text);
        auto res = run(text);
        check(res, v, { 3, 0 }, "Error at in.cq:" + std::to_string(line) + ":" + std::to_string(sp.size() + 9));
        H_REQUIRE(n_statements(res) == 1 && n_variables(res) == 1, "the rest of the program is not analyzed");
    }
    return h::done();
}
