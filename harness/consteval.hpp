// Independent oracle of the built-in operators and functions on constants.
#pragma once
#include <cfloat>
#include <functional>
#include <set>
#include "v3x.hpp"
#include "libqasm/v3x/analyzer.hpp"
namespace ce {
using namespace vx;
namespace analyzer = cqasm::v3x::analyzer;
// a constant: kind 'b', 'i', 'f'; 'e' is an error
struct K { char k; bool b; int64_t i; double f; };
inline K kb(bool b) { return { 'b', b, 0, 0 }; }
inline K ki(int64_t i) { return { 'i', false, i, 0 }; }
inline K kf(double f) { return { 'f', false, 0, f }; }
inline K err() { return { 'e', false, 0, 0 }; }
inline bool same(const K& a, const K& b) { return a.k == b.k && (a.k == 'b' ? a.b == b.b : a.k == 'i' ? a.i == b.i : a.k == 'f' ? same_bits(a.f, b.f) : true); }
inline std::string show(const K& a) { return a.k == 'b' ? (a.b ? "true" : "false") : a.k == 'i' ? std::to_string(a.i) : a.k == 'f' ? bits(a.f) : "an error"; }
inline Value val(const K& a) { return a.k == 'b' ? cbool(a.b) : a.k == 'i' ? cint(a.i) : cfloat(a.f); }
inline K konst(const Value& v) {
    if (v.empty()) return { '0', false, 0, 0 };
    if (auto b = v->as_const_bool()) return kb(b->value);
    if (auto i = v->as_const_int()) return ki(i->value);
    if (auto f = v->as_const_float()) return kf(f->value);
    return { '?', false, 0, 0 };
}
inline K promote(const K& a, char k) {
    if (a.k == k) return a;
    if (a.k == 'b' && k == 'i') return ki(a.b);
    if (a.k == 'b' && k == 'f') return kf(a.b ? 1.0 : 0.0);
    if (a.k == 'i' && k == 'f') return kf((double)a.i);
    return err();
}
inline __int128 wide(const K& a) { return a.i; }
inline K wrap(__int128 x) { return ki((int64_t)(uint64_t)(unsigned __int128)x); }
using Args = std::vector<K>;
struct Fn { std::string name, types; std::function<K(const Args&)> f; };
inline const std::vector<Fn>& functions() {
    static std::vector<Fn> fs = [] {
        std::vector<Fn> r;
        auto add = [&](std::string n, std::string t, std::function<K(const Args&)> f) { r.push_back({ "operator" + n, t, f }); };
        auto fun = [&](std::string n, std::string t, std::function<K(const Args&)> f) { r.push_back({ n, t, f }); };
        add("-", "f", [](const Args& a) { return kf(-a[0].f); });
        add("-", "i", [](const Args& a) { return wrap(-wide(a[0])); });
        add("+", "ff", [](const Args& a) { return kf(a[0].f + a[1].f); });
        add("+", "ii", [](const Args& a) { return wrap(wide(a[0]) + wide(a[1])); });
        add("-", "ff", [](const Args& a) { return kf(a[0].f - a[1].f); });
        add("-", "ii", [](const Args& a) { return wrap(wide(a[0]) - wide(a[1])); });
        add("*", "ff", [](const Args& a) { return kf(a[0].f * a[1].f); });
        add("*", "ii", [](const Args& a) { return wrap(wide(a[0]) * wide(a[1])); });
        add("/", "ff", [](const Args& a) { return kf(a[0].f / a[1].f); });
        add("/", "ii", [](const Args& a) { return a[1].i ? wrap(wide(a[0]) / wide(a[1])) : err(); });
        add("%", "ii", [](const Args& a) { return a[1].i ? wrap(wide(a[0]) % wide(a[1])) : err(); });
        add("**", "ff", [](const Args& a) { return kf(std::pow(a[0].f, a[1].f)); });
#define CMP(o) \
        add(#o, "ff", [](const Args& a) { return kb(a[0].f o a[1].f); }); \
        add(#o, "ii", [](const Args& a) { return kb(a[0].i o a[1].i); }); \
        add(#o, "bb", [](const Args& a) { return kb((int)a[0].b o (int)a[1].b); });
        CMP(==) CMP(!=) CMP(>=) CMP(>) CMP(<=) CMP(<)
#undef CMP
        add("~", "i", [](const Args& a) { return ki(~a[0].i); });
        add("&", "ii", [](const Args& a) { return ki(a[0].i & a[1].i); });
        add("^", "ii", [](const Args& a) { return ki(a[0].i ^ a[1].i); });
        add("|", "ii", [](const Args& a) { return ki(a[0].i | a[1].i); });
        add("<<", "ii", [](const Args& a) { return a[1].i < 0 || a[1].i > 63 ? err() : ki((int64_t)((uint64_t)a[0].i << a[1].i)); });
        add(">>", "ii", [](const Args& a) { return a[1].i < 0 || a[1].i > 63 ? err() : wrap(wide(a[0]) >= 0 ? wide(a[0]) / ((__int128)1 << a[1].i) : -((-wide(a[0]) + ((__int128)1 << a[1].i) - 1) / ((__int128)1 << a[1].i))); });
        add("!", "b", [](const Args& a) { return kb(!a[0].b); });
        add("&&", "bb", [](const Args& a) { return kb(a[0].b && a[1].b); });
        add("^^", "bb", [](const Args& a) { return kb(a[0].b != a[1].b); });
        add("||", "bb", [](const Args& a) { return kb(a[0].b || a[1].b); });
        for (const char* t : { "bff", "bii", "bbb" }) add("?:", t, [](const Args& a) { return a[0].b ? a[1] : a[2]; });
#define FUN(n) fun(#n, "f", [](const Args& a) { return kf(std::n(a[0].f)); });
        FUN(sqrt) FUN(exp) FUN(log) FUN(sin) FUN(cos) FUN(tan) FUN(sinh) FUN(cosh) FUN(tanh) FUN(asin) FUN(acos) FUN(atan) FUN(asinh) FUN(acosh) FUN(atanh)
#undef FUN
        fun("abs", "f", [](const Args& a) { return kf(std::signbit(a[0].f) ? -a[0].f : a[0].f); });
        fun("abs", "i", [](const Args& a) { return wrap(a[0].i < 0 ? -wide(a[0]) : wide(a[0])); });
        return r;
    }();
    return fs;
}
inline int rank(char k) { return k == 'b' ? 0 : k == 'i' ? 1 : 2; }
// the documented overload: applicable with the fewest promotions
inline const Fn* pick(const std::string& name, const Args& a) {
    const Fn* best = nullptr; int cost = 0;
    for (auto& f : functions()) {
        if (f.name != name || f.types.size() != a.size()) continue;
        int c = 0;
        for (size_t i = 0; i < a.size(); ++i) c += rank(f.types[i]) < rank(a[i].k) ? 1000 : rank(f.types[i]) - rank(a[i].k);
        if (c < 1000 && (!best || c < cost)) { best = &f; cost = c; }
    }
    return best;
}
inline K expected(const std::string& name, const Args& a) {
    auto f = pick(name, a);
    if (!f) return err();
    Args p;
    for (size_t i = 0; i < a.size(); ++i) p.push_back(promote(a[i], f->types[i]));
    return f->f(p);
}
inline analyzer::Analyzer& an() {
    static analyzer::Analyzer* a = [] { auto a = new analyzer::Analyzer("3.0"); a->register_default_constants(); a->register_default_functions(); return a; }();
    return *a;
}
inline K actual(const std::string& name, const Args& a) {
    values::Values vs;
    for (auto& x : a) vs.add(val(x));
    K r;
    try { r = konst(an().resolve_function(name, vs)); } catch (const cqasm::error::AnalysisError&) { r = err(); }
    for (size_t i = 0; i < a.size(); ++i) H_REQUIRE(same(konst(vs[i]), a[i]), "an operand is changed");
    return r;
}
inline std::string call(const std::string& name, const Args& a) { std::string s = name + "("; for (auto& x : a) s += (s.back() == '(' ? "" : ", ") + std::string(x.k == 'f' ? "float " : x.k == 'i' ? "int " : "") + show(x); return s + ")"; }
inline void check(const std::string& name, const Args& a) {
    h::begin(call(name, a));
    K w = expected(name, a), g = actual(name, a);
    H_REQUIRE(same(g, w), "gives " + show(g) + " instead of " + show(w));
}
}
