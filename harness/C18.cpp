#include <algorithm>
#include "prog.hpp"
using namespace vx;
struct Var { std::string name; bool qubit; int64_t size; };      // size 0: not an array
int main(int c, char** a) {
    h::init(c, a);
    h::Rng r(h::seed);
    auto decl = [](const Var& v) { return std::string(v.qubit ? "qubit" : "bit") + (v.size ? "[" + std::to_string(v.size) + "]" : "") + " " + v.name + "\n"; };
    // an operand denoting a number of qubits or bits
    auto operand = [&](const Var& v, size_t& n) {
        if (!v.size || r.below(3) == 0) { n = v.size ? v.size : 1; return v.name; }
        std::string s = v.name + "[";
        n = 0;
        for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) {
            int64_t x = r.below(v.size), y = x + r.below(std::min<int64_t>(v.size - x, 20));
            if (i) s += ", ";
            if (r.below(2)) { s += std::to_string(x); ++n; } else { s += std::to_string(x) + ":" + std::to_string(y); n += y - x + 1; }
        }
        return s + "]";
    };
    const char* two[] = { "CNOT", "CZ", "SWAP", "CR(1.5)", "CRk(2)", "ctrl.X", "ctrl.pow(2).H", "ctrl.inv.Rx(0.5)" };
    std::vector<int64_t> sizes{ 0, 1, 2, 3, 4, 5, 17 }, shift{ 0, 0, 0, 1, 128, 256, 65536, 1LL << 31, 1LL << 32, 1LL << 62 };
    for (auto n : h::nums) if (n > 0 && n < INT64_MAX) sizes.push_back(n);
    for (int i = 0; i < (h::thorough ? 20000 : 1500) && h::time_left(); ++i) {
        std::vector<Var> vs;
        std::string ds;
        int64_t base = sizes[r.below(sizes.size())];
        for (int k = 0; k < 4; ++k) { Var v{ (k < 2 ? "q" : "b") + std::to_string(k), k < 2, r.below(2) ? base : sizes[r.below(sizes.size())] };
            if (r.below(4) == 0) { int64_t d = shift[r.below(shift.size())]; if (base < INT64_MAX - d) v.size = base + d; }
            vs.push_back(v); ds += decl(v); }
        size_t n, m;
        if (r.below(2)) {
            auto x = operand(vs[r.below(2)], n), y = operand(vs[r.below(2)], m);
            bool ok = accepts(ds, std::string(two[r.below(8)]) + " " + x + ", " + y);
            H_REQUIRE(ok == (n == m), std::string("a gate on operands denoting ") + std::to_string(n) + " and " + std::to_string(m) + " qubits is " + (ok ? "accepted" : "rejected"));
        } else {
            auto x = operand(vs[2 + r.below(2)], n), y = operand(vs[r.below(2)], m);
            bool ok = accepts(ds, x + " = measure " + y);
            H_REQUIRE(ok == (n == m), "a measurement of " + std::to_string(m) + " qubits into " + std::to_string(n) + " bits is " + (ok ? "accepted" : "rejected"));
        }
        auto x = operand(vs[r.below(2)], n);
        H_REQUIRE(accepts(ds, "H " + x), "a gate with one operand is rejected");
        H_REQUIRE(accepts(ds, "reset " + x), "a reset is rejected");
    }
    return h::done();
}
