#include "harness.hpp"
#include "libqasm/annotations.hpp"
using L = cqasm::annotations::SourceLocation;
static void one(const std::optional<std::string>& fn, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
    if (c < a || (c == a && d < b)) return;
    h::begin("location of file " + (fn ? h::show(*fn) : std::string("(none)")) + " range " + std::to_string(a) + ":" + std::to_string(b) + ".." + std::to_string(c) + ":" + std::to_string(d));
    L l(fn, L::Range({ a, b }, { c, d }));
    bool known = fn && !fn->empty();
    H_REQUIRE(l.file_name.has_value() == known && (!known || *l.file_name == *fn), "file name not kept");
    H_REQUIRE(l.range.first.line == a && l.range.first.column == b && l.range.last.line == c && l.range.last.column == d, "range not kept");
    std::string w = known ? *fn : "<unknown file name>";
    auto S = [](uint32_t x) { return std::to_string(x); };
    if (a) {
        w += ":" + S(a);
        if (!b) { if (c > a) w += ".." + S(c); }
        else { w += ":" + S(b); if (c > a) w += ".." + S(c) + ":" + S(d); else if (d > b) w += ".." + S(d); }
    }
    std::ostringstream os; os << l;
    H_REQUIRE(os.str() == w, "prints " + h::show(os.str()) + " instead of " + h::show(w));
    H_REQUIRE(fmt::format("{}", l) == w, "formats as " + h::show(fmt::format("{}", l)) + " instead of " + h::show(w));
}
int main(int argc, char** v) {
    h::init(argc, v);
    std::vector<std::optional<std::string>> names{ std::nullopt, "", "a", "input.cq", " ", ":", "..", "-", std::string(1, '\0'), "<unknown file name>", "a:1", "C:\\x y.cq", "\xc3\xa9" };
    for (auto& s : h::dict) names.push_back(s);
    uint32_t k[] = { 0, 1, 2, 9, 10, 11, 1000, 999999, 1000000, 2147483647, 2147483648u, 4294967295u };
    for (auto& n : names) for (auto a : k) for (auto b : k) for (auto c : k) for (auto d : { 0u, 1u, 10u, 1000u, 4294967295u }) { one(n, a, b, c, d); if (&n - &names[0] > 13 && a > 2) break; }
    auto u = h::u32s();
    for (auto a : u) for (auto b : u) { one("f", 1, a, 1, b); one("f", a, 0, b, 0); one("f", a, 1, b, 1); one("f", a, 3, b, 2); one("f", 5, a, 6, b); one("f", a, b, a, b); one("f", a, b, a, 0xffffffff); }
    h::strings([](const std::string& s) { one(s, 1, 2, 3, 4); }, false, 5000);
    return h::done();
}
