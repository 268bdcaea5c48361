#include "harness.hpp"
#include "libqasm/annotations.hpp"
using L = cqasm::annotations::SourceLocation;
using I = L::Index;
static std::string s(const I& i) { return "{" + std::to_string(i.line) + "," + std::to_string(i.column) + "}"; }
static bool lt(const I& a, const I& b) { return a.line != b.line ? a.line < b.line : a.column < b.column; }
static bool same(const I& a, const I& b) { return a.line == b.line && a.column == b.column; }
static void pair(const I& f, const I& l) {
    h::begin("Range(" + s(f) + ", " + s(l) + ")");
    L::Range r(f, l);
    H_REQUIRE(same(r.first, f), "starts at " + s(r.first));
    H_REQUIRE(same(r.last, lt(l, f) ? f : l), "ends at " + s(r.last));
    h::begin("comparison of " + s(f) + " and " + s(l));
    H_REQUIRE((f < l) == lt(f, l) && (f > l) == lt(l, f) && (f <= l) == !lt(l, f) && (f >= l) == !lt(f, l) && (f == l) == same(f, l) && (f != l) == !same(f, l), "wrong order of positions");
}
static void expand(const I& f, const I& l, const I& i) {
    if (lt(l, f)) return;
    h::begin("range " + s(f) + ".." + s(l) + " expanded to include " + s(i));
    L loc("file", L::Range(f, l));
    loc.expand_to_include(i);
    I wf = lt(i, f) ? i : f, wl = lt(l, i) ? i : l;
    H_REQUIRE(same(loc.range.first, wf) && same(loc.range.last, wl), "gives " + s(loc.range.first) + ".." + s(loc.range.last));
    H_REQUIRE(loc.file_name && *loc.file_name == "file", "file name changed");
    L one("a", L::Range(f, l)), two("b", L::Range(f, i));
    bool wlt = lt(one.range.last, two.range.last), wgt = lt(two.range.last, one.range.last);
    H_REQUIRE((one < two) == wlt && (one > two) == wgt && (one.range < two.range) == wlt && (one.range > two.range) == wgt && (one.range == two.range) == (!wlt && !wgt), "wrong order of ranges or locations");
    if (lt(i, f) || lt(f, i)) {
        L three("a", L::Range(i, l));
        H_REQUIRE((one < three) == lt(f, i) && (one.range < three.range) == lt(f, i) && (one.range == three.range) == false, "ranges are not ordered by their start");
    }
}
int main(int c, char** v) {
    h::init(c, v);
    L::Range d;
    h::begin("Range()"); H_REQUIRE(!lt(d.last, d.first), "ends before it starts");
    std::vector<uint32_t> u = h::u32s();
    std::vector<I> p;
    for (uint32_t a : { 0u, 1u, 2u, 3u, 10u, 0x7fffffffu, 0x80000000u, 0xffffffffu }) for (uint32_t b : { 0u, 1u, 2u, 9u, 0x80000000u, 0xffffffffu }) p.push_back({ a, b });
    for (auto& a : p) for (auto& b : p) { pair(a, b); for (auto& x : p) expand(a, b, x); }
    for (auto a : u) for (auto b : u) { pair({ a, b }, { b, a }); pair({ 1, a }, { 1, b }); pair({ a, 5 }, { b, 5 }); pair({ a, 7 }, { b, 3 }); for (uint32_t x : { 0u, 1u, 5u, 100u }) expand({ a, 3 }, { b, 4 }, { x, 2 }), expand({ 4, a }, { 4, b }, { 4, x }); }
    h::Rng r(h::seed);
    for (int i = 0; i < (h::thorough ? 3000000 : 300000) && h::time_left(); ++i) {
        auto g = [&] { uint32_t m = r.below(3) ? 4 : 0; auto z = [&] { return m ? (uint32_t)r.below(m) : (r.below(2) ? u[r.below(u.size())] : (uint32_t)r.next()); }; uint32_t a = z(), b = z(); return I{ a, b }; };
        I a = g(), b = g(), x = g();
        pair(a, b); expand(a, b, x); expand(b, a, x);
    }
    return h::done();
}
