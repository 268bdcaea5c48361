// Results with and without errors against their strings, JSON and unwrapping.
#include "prog.hpp"
#include "libqasm/v3x/analysis_result.hpp"
#include "libqasm/v3x/parse_result.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include <sstream>
using namespace vx;
namespace parser = cqasm::v3x::parser;
using cqasm::error::Error;
template <class R> static void check(const R& r, const std::string& what) {
    h::begin(what + " with " + std::to_string(r.errors.size()) + " errors");
    auto s = r.to_strings();
    auto j = r.to_json();
    if (r.errors.empty()) {
        H_REQUIRE(s.size() == 1, std::to_string(s.size()) + " strings without errors");
        H_REQUIRE(s[0] == ::tree::base::serialize(r.root), "the string is not the serialized tree: " + s[0]);
        std::ostringstream o; r.root->dump_json(o);
        H_REQUIRE(j == o.str(), "the JSON is not that of the tree: " + j);
        return;
    }
    H_REQUIRE(s.size() == r.errors.size() + 1, std::to_string(s.size()) + " strings for " + std::to_string(r.errors.size()) + " errors");
    H_REQUIRE(s[0].empty(), "the first string is not empty although there are errors");
    std::string want;
    for (size_t i = 0; i < r.errors.size(); ++i) {
        H_REQUIRE(s[i + 1] == r.errors[i].what(), "string " + std::to_string(i + 1) + " is " + h::show(s[i + 1]) + ", not " + h::show(r.errors[i].what()));
        want += (i ? "," : "") + r.errors[i].to_json();
    }
    H_REQUIRE(j == "{\"errors\":[" + want + "]}", "the JSON of the errors is " + h::show(j));
}
static void unwrapped(const analyzer::AnalysisResult& r) {
    std::ostringstream out; out << "before;";
    bool failed = false;
    try { auto t = r.unwrap(out); H_REQUIRE(t.get_ptr() == r.root.get_ptr(), "unwrap yields another tree"); } catch (const analyzer::AnalysisFailed&) { failed = true; }
    H_REQUIRE(failed == !r.errors.empty(), failed ? "unwrap refuses a result without errors" : "unwrap yields a tree although there are errors");
    std::string want = "before;";
    for (size_t i = 0; i < r.errors.size(); ++i) want += (i ? "\n" : "") + std::string(r.errors[i].what());
    H_REQUIRE(out.str() == want, "unwrap prints " + h::show(out.str()) + ", not " + h::show(want));
}
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    const std::vector<std::string> programs{ "version 3", "version 3.0\nqubit q\nH q\n", "version 3.0\nqubit[3] q\nbit[3] b\nb = measure q\nRx(1.5) q[0]\n" };
    const std::vector<std::string> messages{ "", "a", "two words", "quote \" and \\", "line\nbreak", "comma, {brace} [bracket]", "errors", "\xc3\xa9", std::string(5000, 'x') };
    for (int i = 0; i < (h::thorough ? 40000 : 3000) && h::time_left(); ++i) {
        size_t n = r.below(4) ? r.below(6) : r.below(10) ? i % 40 : i % 400;
        std::vector<Error> es;
        for (size_t k = 0; k < n; ++k) {
            std::string m = messages[r.below(r.below(4) ? messages.size() - 1 : messages.size())] + (r.below(2) ? std::to_string(k) : "");
            if (r.below(2)) { uint32_t l = 1 + (uint32_t)r.below(90); es.emplace_back(m, r.below(2) ? std::optional<std::string>("f.cq") : std::nullopt, cqasm::annotations::SourceLocation::Range{ { l, 1 + (uint32_t)r.below(9) }, { l, 10 + (uint32_t)r.below(9) } }); }
            else es.emplace_back(m);
        }
        auto& p = programs[r.below(programs.size())];
        auto ar = run(p);
        auto pr = parser::parse_string(p, std::nullopt);
        if (r.below(2) && n) { ar.root = {}; pr.root = {}; }       // with errors the tree may be there or not
        for (auto& e : es) { ar.errors.push_back(e); pr.errors.push_back(e); }
        check(ar, "analysis result"); check(pr, "parse result");
        unwrapped(ar);
    }
    for (auto& p : { "version 2", "version 3.0\nqubit q\nH w\nX v\nqubit q", "version", "", "version 3.0\nH" }) { auto ar = run(p); check(ar, "analysis of " + std::string(p)); unwrapped(ar); check(parser::parse_string(p, std::nullopt), "parsing of " + std::string(p)); }
    return h::done();
}
