#include "prog.hpp"
using namespace vx;
struct Entry { bool range, ok = true; __int128 a, b; };
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    std::vector<int64_t> sizes{ 1, 2, 3, 5, 8, 17, 100 };
    for (auto n : h::nums) if (n > 1 && n < 100000) sizes.push_back(n);
    for (int i = 0; i < (h::thorough ? 60000 : 5000) && h::time_left(); ++i) {
        int64_t n = sizes[r.below(sizes.size())];
        bool qubits = r.below(2);
        std::string decl = std::string(qubits ? "qubit[" : "bit[") + std::to_string(n) + "] v\nqubit s\nqubit[64] w\nbit[64] x\n";
        std::string list;
        std::vector<int64_t> want;
        bool ok = true;
        auto number = [&](int64_t& x) -> std::string {
            switch (r.below(24)) {
                case 0: x = n; return std::to_string(n);
                case 1: x = n - 1; return std::to_string(n) + " - 1";
                case 2: x = -1; return "-1";
                case 3: x = INT64_MAX; return std::to_string(INT64_MAX);
                case 4: x = 1; return "true";
                case 5: ok = false; x = 0; return "1.0";
                case 6: ok = false; x = 0; return "nosuchname";
                case 7: x = 1LL << 32; return "4294967296";
                case 8: x = 0; return "0";
                case 9: x = 5 % n; return "5 % " + std::to_string(n);
                case 10: ok = false; x = 0; return "s";
                default: x = r.below(n); return std::to_string(x);
            }
        };
        for (size_t k = 0, m = 1 + r.below(r.below(40) ? 4 : 90); k < m; ++k) {
            if (k) list += ", ";
            int64_t a, b;
            std::string s = number(a);
            if (r.below(2)) {
                std::string t = number(b);
                if (r.below(4) && ok && b < a) { std::swap(a, b); std::swap(s, t); }
                list += s + ":" + t;
                if (a > b || a < 0 || b >= n) ok = false;
                else for (int64_t x = a; x <= b; ++x) want.push_back(x);
            } else {
                list += s;
                if (a < 0 || a >= n) ok = false; else want.push_back(a);
            }
        }
        if (want.size() > 5000) continue;
        // the sizes match whatever is indexed, so that only the indices decide
        std::string st = qubits ? "H v[" + list + "]" : "v[" + list + "] = measure w[0:" + std::to_string(want.empty() ? 0 : want.size() - 1) + "]";
        if (!qubits && want.size() > 64) continue;
        analyzer::AnalysisResult res;
        bool accepted = accepts(decl, st, &res);
        if (!ok) { H_REQUIRE(!accepted, "an index that is out of range or no constant integer, or a descending range, is accepted"); continue; }
        H_REQUIRE(accepted, "indices within the declared size are rejected: " + errors_of(res));
        Value v;
        auto& s0 = res.root->block->statements[0];
        if (qubits) v = s0->as_gate_instruction()->operands[0]; else v = s0->as_non_gate_instruction()->operands[0];
        auto ref = v->as_index_ref();
        H_REQUIRE(ref && ref->variable->name == "v", "the operand does not refer to the variable indexed");
        H_REQUIRE(ref->indices.size() == want.size(), "another number of indices than written: " + std::to_string(ref->indices.size()) + ", not " + std::to_string(want.size()));
        for (size_t k = 0; k < want.size(); ++k) H_REQUIRE(ref->indices[k]->value == want[k], "index " + std::to_string(k) + " is " + std::to_string(ref->indices[k]->value) + ", not " + std::to_string(want[k]));
    }
    const char* bad[] = { "H 1[0]", "H s[0]", "H pi[0]", "H (1+2)[0]", "H nosuchname[0]", "H true[0]", "H sin(0)[0]", "H w[0][0]", "H (w[0:1])[0]", "H w[0:9223372036854775807]", "H w[-9223372036854775807:0]", "H w[63:64]", "t[0] = measure s", "H u[0]" };
    for (auto s : bad) {
        std::string t = std::string("version 3.0\nqubit s\nqubit[64] w\nbit t\nbit[2] u\n") + s + "\n";
        h::begin("program:\n" + t);
        auto res = run(t);
        H_REQUIRE(!res.errors.empty() && n_statements(res) == 0, "an indexation that is not allowed is accepted");
    }
    return h::done();
}
