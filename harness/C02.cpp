#include "harness.hpp"
#include "libqasm/utils.hpp"
static void one(const std::string& s) {
    h::begin("url_encode(" + h::show(s) + ")");
    std::string r = cqasm::utils::url_encode(s), want;
    for (unsigned char c : s) {
        bool keep = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
        if (keep) want += (char)c;
        else { want += '%'; want += "0123456789ABCDEF"[c >> 4]; want += "0123456789ABCDEF"[c & 15]; }
    }
    H_REQUIRE(r == want, "result " + h::show(r) + " instead of " + h::show(want));
}
int main(int c, char** v) { h::init(c, v); h::strings(one); return h::done(); }
