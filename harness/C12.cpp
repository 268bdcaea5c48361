#include "harness.hpp"
#include "libqasm/string_builder.hpp"
using B = cqasm::syntactic::StringBuilder;
static std::string meaning(const std::string& e) {
    if (e.size() == 2 && e[0] == '\\') switch (e[1]) { case 't': return "\t"; case 'n': return "\n"; case 'r': return "\r"; case '\'': return "'"; case '"': return "\""; case '\\': return "\\"; }
    return e;
}
static void seq(const std::vector<std::pair<bool, std::string>>& ps) {
    std::string d, want;
    for (auto& [e, s] : ps) { d += (e ? "escape " : "fragment ") + h::show(s) + "; "; want += e ? meaning(s) : s; }
    h::begin(d.substr(0, 2000));
    B b;
    for (auto& [e, s] : ps) if (e) b.push_escape(s); else b.push_string(s);
    H_REQUIRE(b.stream.str() == want, "builds " + h::show(b.stream.str()) + ", expected " + h::show(want));
}
int main(int c, char** v) {
    h::init(c, v);
    std::vector<std::string> es;
    for (int x = 0; x < 256; ++x) { es.push_back(std::string("\\") + (char)x); es.push_back(std::string(1, (char)x)); es.push_back(std::string("\\") + (char)x + "x"); es.push_back(std::string("/") + (char)x); }
    for (auto s : { "", "\\", "\\\\t", "\\tt", "\\u0041", "\\x41", "\\012", "t", "n" }) es.push_back(s);
    for (auto& e : es) { seq({ { true, e } }); seq({ { false, e } }); seq({ { false, "a" }, { true, e }, { false, "\\n" }, { true, "\\n" } }); seq({ { true, e }, { true, e } }); }
    for (size_t i = 0; i < es.size(); i += 3) for (size_t j = 0; j < es.size(); j += 7) seq({ { true, es[i] }, { true, es[j] }, { false, es[i] } });
    seq({});
    h::strings([&](const std::string& s) { seq({ { false, s } }); seq({ { true, s } }); seq({ { true, "\\t" }, { false, s }, { true, "\\\\" } }); }, false, 3000);
    h::Rng r(h::seed);
    for (int i = 0; i < 50000 && h::time_left(); ++i) { std::vector<std::pair<bool, std::string>> p; for (size_t n = r.below(30); n; --n) { auto& e = es[r.below(es.size())]; p.push_back({ r.below(2) == 1, e }); } seq(p); }
    return h::done();
}
