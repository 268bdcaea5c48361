#include "harness.hpp"
#include "libqasm/utils.hpp"
static void one(const std::string& s) {
    h::begin("remove_triple_quotes(''' + " + h::show(s) + " + ''')");
    std::string r = cqasm::utils::remove_triple_quotes("'''" + s + "'''");
    H_REQUIRE(r == s, "result " + h::show(r));
}
int main(int c, char** v) { h::init(c, v); h::strings(one); return h::done(); }
