#include "harness.hpp"
#include "libqasm/version.hpp"
using V = cqasm::version::Version;
using C = std::vector<long long>;
static std::string list(const C& v) { std::string r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "]"; }
static int ref(const C& a, const C& b) {
    for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
        long long x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
        if (x != y) return x < y ? -1 : 1;
    }
    return 0;
}
static V mk(const C& c) { V v; for (auto x : c) v.push_back(x); return v; }
static void pair(const C& a, const C& b) {
    h::begin("comparison of " + list(a) + " and " + list(b));
    const V x = mk(a), y = mk(b);
    int w = ref(a, b);
    H_REQUIRE((x == y) == (w == 0), "== is wrong");
    H_REQUIRE((x != y) == (w != 0), "!= is wrong");
    H_REQUIRE((x < y) == (w < 0), "< is wrong");
    H_REQUIRE((x <= y) == (w <= 0), "<= is wrong");
    H_REQUIRE((x > y) == (w > 0), "> is wrong");
    H_REQUIRE((x >= y) == (w >= 0), ">= is wrong");
}
int main(int c, char** v) {
    h::init(c, v);
    std::vector<long long> ns{ 0, 1, 2, 3, 9, 10, 255, 256, 65536, 2147483647ll, 2147483648ll, 4294967296ll, 4294967297ll, 9007199254740992ll, 9007199254740993ll, 9223372036854775806ll, 9223372036854775807ll, -1, -2, -9223372036854775807ll - 1 };
    for (auto n : h::nums) for (int d = -1; d <= 1; ++d) if (n < 9223372036854775807ll) ns.push_back(n + d);
    std::vector<C> cs{ {} };
    for (auto a : ns) { cs.push_back({ a }); cs.push_back({ 3, a }); cs.push_back({ a, 0 }); cs.push_back({ 3, 0, a }); cs.push_back({ a, 0, 0 }); }
    for (long long a : { 0, 1, 2, -1 }) for (long long b : { 0, 1, 2, -1 }) { cs.push_back({ a, b }); for (long long d : { 0, 1, 2, -1 }) { cs.push_back({ a, b, d }); for (long long e : { 0, 1 }) cs.push_back({ a, b, d, e }); } }
    for (auto& a : cs) for (auto& b : cs) pair(a, b);
    for (int k = 0; k < 40; ++k) for (int p = 0; p < k + 3; ++p) { C a(k, 1), b(k + 3, 1); for (int i = k; i < k + 3; ++i) b[i] = 0; pair(a, b); pair(b, a); C d = b; d[p] += 1; pair(a, d); pair(d, a); d[p] = -5; pair(a, d); pair(d, a); C z(p, 0); pair(C(k, 0), z); }
    h::Rng r(h::seed);
    for (int i = 0; i < (h::thorough ? 5000000 : 500000) && h::time_left(); ++i) {
        auto g = [&] { C x; for (size_t n = r.below(r.below(4) ? 6 : 40); n; --n) x.push_back(r.below(4) ? (long long)r.below(3) : ns[r.below(ns.size())]); return x; };
        C a = g(), b = r.below(2) ? g() : a;
        if (!b.empty() && r.below(2)) b[r.below(b.size())] = ns[r.below(ns.size())];
        if (r.below(3) == 0) b.resize(b.size() + r.below(4), 0);
        pair(a, b); pair(b, a);
    }
    return h::done();
}
