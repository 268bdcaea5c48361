#include "harness.hpp"
#include "libqasm/utils.hpp"
static std::string low(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static void eq(const std::string& a, const std::string& b) {
    h::begin("equal_case_insensitive(" + h::show(a) + ", " + h::show(b) + ")");
    bool want = low(a) == low(b);
    H_REQUIRE(cqasm::utils::equal_case_insensitive(a, b) == want, want ? "reports different" : "reports equal");
}
static void one(const std::string& s) {
    h::begin("to_lowercase(" + h::show(s) + ")");
    std::string r = cqasm::utils::to_lowercase(s);
    H_REQUIRE(r == low(s), "result " + h::show(r));
    std::string up = s;
    for (char& c : up) if (c >= 'a' && c <= 'z') c -= 32;
    eq(s, s); eq(s, up); eq(up, s); eq(s, low(s));
    eq(s, s + "a"); eq(s + "a", s); eq(s, s + std::string(1, '\0')); eq(s + std::string(1, '\0'), s);
    if (!s.empty()) {
        std::string t = s; t.back() ^= 0x20; eq(s, t); eq(t, s);
        t = s; t[0] ^= 0x20; eq(s, t); t = s; t.back() ^= 1; eq(s, t); t = s; t[0] ^= 0x80; eq(s, t);
        t = s; t[t.size() / 2] ^= 2; eq(s, t); t = s; t.pop_back(); eq(s, t); eq(t, s);
    }
}
int main(int c, char** v) {
    h::init(c, v);
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { eq(std::string(1, (char)a), std::string(1, (char)b)); eq("q" + std::string(1, (char)a), "Q" + std::string(1, (char)b)); }
    for (auto& a : h::dict) for (auto& b : h::dict) eq(a, b);
    h::strings(one, false);
    return h::done();
}
