#include "harness.hpp"
#include "libqasm/version.hpp"
using V = cqasm::version::Version;
// reference: split at dots, strtoll prefix of each part
static bool part(const std::string& s, std::vector<long long>& out) {
    size_t i = 0;
    while (i < s.size() && strchr(" \t\n\v\f\r", s[i]) && s[i]) ++i;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
    unsigned __int128 v = 0;
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { v = v * 10 + (s[i] - '0'); if (v > ((unsigned __int128)1 << 70)) return false; }
    if (v > 0x7fffffffffffffffull || (neg && v != 0)) return false;
    out.push_back((long long)v);
    return true;
}
static std::string list(const std::vector<long long>& v) { std::string r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "]"; }
static void one(const std::string& t) {
    h::begin("Version(" + h::show(t) + ")");
    std::vector<long long> want;
    bool ok = true;
    if (!t.empty()) { size_t b = 0; for (;;) { size_t e = t.find('.', b); if (!part(t.substr(b, e == std::string::npos ? e : e - b), want)) { ok = false; break; } if (e == std::string::npos) break; b = e + 1; } }
    std::vector<long long> got;
    bool threw = false;
    try { V v(t); got.assign(v.begin(), v.end()); } catch (const std::exception&) { threw = true; }
    if (!ok) { H_REQUIRE(threw, "a negative, unfit or missing number gives the version " + list(got)); return; }
    H_REQUIRE(!threw, "rejected, expected " + list(want));
    H_REQUIRE(got == want, "gives " + list(got) + ", expected " + list(want));
    if (t.find('\0') == std::string::npos) {
        V c(t.c_str());
        H_REQUIRE(std::vector<long long>(c.begin(), c.end()) == want, "differs when built from a C string");
    }
}
static void print(const std::vector<long long>& c) {
    h::begin("printing " + list(c));
    V v;
    std::string want;
    for (auto x : c) { v.push_back(x); want += (&x == nullptr ? "" : want.empty() && v.size() == 1 ? "" : ".") + std::to_string(x); }
    std::ostringstream os;
    os << "x" << v << "y";
    H_REQUIRE(os.str() == "x" + want + "y", "prints " + h::show(os.str()));
    for (auto x : c) if (x < 0) return;
    V w(want);
    H_REQUIRE(std::vector<long long>(w.begin(), w.end()) == c, "does not parse back");
    H_REQUIRE(std::vector<long long>(v.begin(), v.end()) == c, "changed by printing");
}
int main(int c, char** v) {
    h::init(c, v);
    std::vector<long long> ns{ 0, 1, 2, 3, 9, 10, 99, 100, 1000, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 9007199254740993ll, 9223372036854775806ll, 9223372036854775807ll };
    for (auto n : h::nums) if (n >= 0) { ns.push_back(n); if (n) ns.push_back(n - 1); if (n < 9223372036854775807ll) ns.push_back(n + 1); }
    std::vector<std::string> ps;
    for (auto n : ns) { ps.push_back(std::to_string(n)); ps.push_back("-" + std::to_string(n)); ps.push_back("+" + std::to_string(n)); ps.push_back("0" + std::to_string(n)); }
    for (auto s : { "", " ", "x", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "-9223372036854775808", " 7", "7x", "1e3", "0x10", "3-1", "-", "+", "--1", "1 2" }) ps.push_back(s);
    one("");
    for (auto& a : ps) { one(a); one(a + "."); one("." + a); one("3." + a); one(a + ".3"); one("1.2." + a + ".4"); one(a + ".." + a); }
    for (auto& a : ps) for (auto& b : ps) one(a + "." + b);
    for (int k = 1; k < 70; ++k) { std::string s = "1"; for (int i = 1; i < k; ++i) s += "." + std::to_string(i % 7 == 3 ? i * 1000003 : i); one(s); one(s + "."); one(s + ".-1"); one("-1." + s); }
    for (auto a : ns) { print({ a }); print({ -a }); for (auto b : ns) { print({ a, b }); print({ a, 0, b }); } }
    print({});
    for (int k = 0; k < 60; ++k) { std::vector<long long> x; for (int i = 0; i < k; ++i) x.push_back(ns[(i * 7 + k) % ns.size()]); print(x); }
    h::Rng r(h::seed);
    const std::string al = "0123456789..-+ x";
    for (int i = 0; i < (h::thorough ? 3000000 : 300000) && h::time_left(); ++i) { std::string s; for (size_t n = r.below(24); n; --n) s += al[r.below(r.below(3) ? 12 : al.size())]; one(s); }
    return h::done();
}
