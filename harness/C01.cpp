#include "harness.hpp"
#include "libqasm/utils.hpp"
// oracle: decode the output as JSON string content; it must give back the input byte for byte
static void one(const std::string& s) {
    h::begin("json_encode(" + h::show(s) + ")");
    std::string r = cqasm::utils::json_encode(s);
    std::string dec;
    size_t i = 0;
    while (i < r.size()) {
        unsigned char c = r[i];
        H_REQUIRE(c != '"', "raw quote in " + h::show(r));
        H_REQUIRE(c >= 32, "raw control character in " + h::show(r));
        if (c != '\\') { 
            H_REQUIRE(dec.size() < s.size() && s[dec.size()] == (char)c, "unescaped byte does not match the input in " + h::show(r));
            dec += (char)c; ++i; continue;
        }
        H_REQUIRE(i + 5 < r.size() && r[i + 1] == 'u', "malformed escape in " + h::show(r));
        unsigned v = 0;
        for (int k = 2; k < 6; ++k) {
            char x = r[i + k];
            int d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1;
            H_REQUIRE(d >= 0, "malformed hexadecimal digit in " + h::show(r));
            v = v * 16 + d;
        }
        H_REQUIRE(v < 256, "escape of a value that is no byte in " + h::show(r));
        unsigned char o = dec.size() < s.size() ? (unsigned char)s[dec.size()] : 0;
        H_REQUIRE(!(o >= 32 && o != '"' && o != '\\') , "byte that needs no escape is escaped in " + h::show(r));
        dec += (char)v; i += 6;
    }
    H_REQUIRE(dec == s, "decoding gives " + h::show(dec));
}
int main(int c, char** v) { h::init(c, v); h::strings(one); return h::done(); }
