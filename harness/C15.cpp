#include "consteval.hpp"
using namespace ce;
int main(int c, char** a) {
    h::init(c, a);
    const int64_t MX = INT64_MAX, MN = INT64_MIN;
    std::vector<int64_t> is{ 0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 31, 32, 33, 62, 63, 64, 65, -63, -64, 100, 255, 256, 1 << 20, 4294967295LL, 4294967296LL, -4294967296LL, 3037000499LL, 3037000500LL, 9007199254740992LL, 9007199254740993LL, 4611686018427387904LL, -4611686018427387904LL, MX, MX - 1, MN, MN + 1 };
    std::vector<double> fs{ 0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.0, -2.0, 3.0, 10.0, 0.1, 1e-10, 1e10, 1e300, -1e300, 1e-308, 5e-324, M_PI, M_PI_2, M_E, 1e18, 9007199254740993.0, INFINITY, -INFINITY, NAN, DBL_MAX, DBL_MIN };
    for (auto x : h::nums) { is.push_back(x); fs.push_back((double)x); }
    std::vector<K> ks{ kb(false), kb(true) };
    for (auto i : is) ks.push_back(ki(i));
    for (auto f : fs) ks.push_back(kf(f));
    std::set<std::string> names;
    for (auto& f : functions()) names.insert(f.name);
    for (auto& n : names) {
        for (auto& x : ks) if (pick(n, { x })) check(n, { x });
        for (auto& x : ks) for (auto& y : ks) if (pick(n, { x, y })) check(n, { x, y });
    }
    for (bool b : { false, true }) for (size_t i = 0; i < ks.size(); ++i) for (size_t j = 0; j < ks.size(); j += 1 + j % 3) check("operator?:", { kb(b), ks[i], ks[j] });
    h::Rng r(h::seed);
    auto any = [&](char k) -> K {
        if (k == 'b') return kb(r.below(2));
        if (k == 'i') return ki(r.below(4) ? (int64_t)r.next() >> r.below(64) : is[r.below(is.size())]);
        if (r.below(4) == 0) return kf(fs[r.below(fs.size())]);
        if (r.below(2)) return kf((double)(int64_t)(r.below(2001) - 1000.0) / 64.0);
        uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return kf(d);
    };
    auto& F = functions();
    for (int i = 0; i < (h::thorough ? 3000000 : 200000) && h::time_left(); ++i) {
        auto& f = F[r.below(F.size())];
        Args v; for (char k : f.types) v.push_back(any(k));
        check(f.name, v);
    }
    // the value depends on the operands alone
    for (int i = 0; i < 2000; ++i) {
        auto& f = F[r.below(F.size())];
        Args v; for (char k : f.types) v.push_back(any(k));
        h::begin(call(f.name, v) + " twice");
        K x = actual(f.name, v), y = actual(f.name, v);
        H_REQUIRE(same(x, y), "gives " + show(x) + " and then " + show(y));
    }
    // operands that are not constants are errors
    for (auto& f : F) {
        for (unsigned m = 1; m < 1u << f.types.size(); ++m) {
            values::Values vs;
            Args v;
            for (size_t k = 0; k < f.types.size(); ++k) { v.push_back(any(f.types[k])); if (m >> k & 1) vs.add(varref(type(f.types[k] == 'b' ? 0 : f.types[k] == 'i' ? 1 : 2))); else vs.add(val(v[k])); }
            std::string which; for (size_t k = 0; k < f.types.size(); ++k) which += m >> k & 1 ? "variable " : "constant ";
            h::begin(call(f.name, v) + " with operands " + which);
            bool ok = true;
            try { (void)an().resolve_function(f.name, vs); } catch (const cqasm::error::AnalysisError&) { ok = false; }
            H_REQUIRE(!ok, "is accepted");
            ok = true;
            try { values::check_const(vs); } catch (const cqasm::error::AnalysisError&) { ok = false; }
            H_REQUIRE(!ok, "the operands are taken for constants");
        }
    }
    return h::done();
}
