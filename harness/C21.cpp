#include "prog.hpp"
#include <map>
using namespace vx;
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    const std::vector<std::string> one{ "H", "I", "X", "X90", "mX90", "Y", "Y90", "mY90", "Z", "Z90", "mZ90", "S", "Sdag", "T", "Tdag", "Rx", "Ry", "Rz", "Rn", "U" }, two{ "CNOT", "CZ", "CR", "CRk", "SWAP" };
    const std::map<std::string, std::string> params{ { "Rx", "f" }, { "Ry", "f" }, { "Rz", "f" }, { "Rn", "fffff" }, { "U", "fff" }, { "CR", "f" }, { "CRk", "i" }, { "pow", "f" }, { "measure", "fff" }, { "wait", "i" } };
    const std::string decl = "qubit p\nqubit q\nqubit[2] r\nbit b\n";
    struct Param { std::string text; char kind; double value; };
    const std::vector<Param> some{ { "true", 'b', 1 }, { "false", 'b', 0 }, { "3", 'i', 3 }, { "-7", 'i', -7 }, { "1 + 1", 'i', 2 }, { "0.25", 'f', 0.25 }, { "-1.5", 'f', -1.5 }, { "pi", 'f', M_PI }, { "2 * 0.5", 'f', 1 }, { "q", 'q', 0 }, { "r", 'r', 0 }, { "b", 't', 0 } };
    auto wanted = [&](const std::string& name) { auto it = params.find(name); return it == params.end() ? std::string() : it->second; };
    auto fits = [](char have, char want) { return have == want || (have == 'b' && (want == 'i' || want == 'f')) || (have == 'i' && want == 'f'); };
    // a parameter list for a name: mostly right, sometimes of another length or type
    auto list = [&](const std::string& want, std::vector<Param>& out) {
        size_t n = want.size();
        if (r.below(5) == 0) n = r.below(7);
        bool ok = true;
        for (size_t i = 0; i < n; ++i) {
            Param p = some[r.below(some.size())];
            if (i < want.size() && r.below(8)) while (!fits(p.kind, want[i])) p = some[r.below(some.size())];
            out.push_back(p);
            if (n == want.size()) ok = ok && fits(p.kind, want[i]);
        }
        return ok && n == want.size();
    };
    auto text = [](const std::vector<Param>& ps) { std::string s; for (auto& p : ps) s += (s.empty() ? "" : ", ") + p.text; return s; };
    auto check = [&](const values::Values& got, const std::vector<Param>& ps, const std::string& want, const std::string& name) {
        H_REQUIRE(got.size() == ps.size(), name + " carries " + std::to_string(got.size()) + " parameters, not " + std::to_string(ps.size()));
        for (size_t i = 0; i < ps.size(); ++i) {
            bool good = want[i] == 'i' ? got[i]->as_const_int() && got[i]->as_const_int()->value == (int64_t)ps[i].value : got[i]->as_const_float() && got[i]->as_const_float()->value == ps[i].value;
            H_REQUIRE(good, "parameter " + std::to_string(i) + " of " + name + " is " + show(got[i]));
        }
    };
    for (int i = 0; i < (h::thorough ? 60000 : 4000) && h::time_left(); ++i) {
        analyzer::AnalysisResult res;
        if (r.below(6) == 0) {      // measure, wait
            std::vector<Param> ps;
            std::string name = r.below(2) ? "measure" : "wait", want = wanted(name);
            bool ok = list(want, ps);
            std::string st;
            if (name == "measure") {
                st = "b = measure" + (ps.empty() ? "" : "(" + text(ps) + ")") + " q";
                if (ps.empty()) ok = true;
            } else { if (ps.size() != 1) continue; st = "wait(" + text(ps) + ") q"; }
            bool accepted = accepts(decl, st, &res);
            H_REQUIRE(accepted == ok, accepted ? "parameters that do not match the table are accepted" : "parameters as in the table are rejected: " + errors_of(res));
            if (accepted) { auto n = res.root->block->statements[0]->as_non_gate_instruction(); H_REQUIRE(n && n->name == name, "another instruction"); check(n->parameters, ps, want, name); }
            continue;
        }
        struct Link { std::string name; std::vector<Param> ps; };
        std::vector<Link> chain;
        std::string st;
        bool ok = true, is_two = false;
        for (size_t k = 0, n = r.below(r.below(40) ? 5 : 60); k < n; ++k) {
            Link l{ std::vector<std::string>{ "inv", "pow", "ctrl" }[r.below(r.below(3) || n > 5 ? 2 : 3)], {} };
            if (l.name == "pow") { do { l.ps.clear(); list("f", l.ps); } while (l.ps.size() != 1); ok = ok && fits(l.ps[0].kind, 'f'); }
            chain.push_back(l);
        }
        Link g{ r.below(6) ? one[r.below(one.size())] : two[r.below(two.size())], {} };
        if (r.below(40) == 0) g.name = std::vector<std::string>{ "x", "Foo", "h", "RX", "measure1" }[r.below(5)];
        bool known = false, terminal_two = false;
        for (auto& n : one) known |= n == g.name;
        for (auto& n : two) if (n == g.name) known = terminal_two = true;
        ok = list(wanted(g.name), g.ps) && ok && known;
        is_two = terminal_two;
        for (size_t k = chain.size(); k-- > 0;) { if (is_two) ok = false; is_two = chain[k].name == "ctrl"; }      // a modifier goes in front of a single-qubit gate only
        for (auto& l : chain) st += l.name + (l.ps.empty() ? "" : "(" + text(l.ps) + ")") + ".";
        st += g.name + (g.ps.empty() ? "" : "(" + text(g.ps) + ")");
        size_t operands = 1 + r.below(2);
        st += operands == 1 ? " p" : " p, q";
        bool want = ok && operands == (is_two ? 2u : 1u);
        bool accepted = accepts(decl, st, &res);
        H_REQUIRE(accepted == want, accepted ? "a gate that does not match the table, or a modifier in front of a two-qubit gate, is accepted" : "a gate as in the table is rejected: " + errors_of(res));
        if (!accepted) continue;
        auto inst = res.root->block->statements[0]->as_gate_instruction();
        H_REQUIRE(inst, "no gate instruction");
        std::string key = chain.empty() ? g.name : std::string(is_two ? "2q_" : "1q_") + g.name;
        H_REQUIRE(!inst->instruction_ref.empty() && inst->instruction_ref->name == key, "looked up as " + (inst->instruction_ref.empty() ? "nothing" : inst->instruction_ref->name) + ", not " + key);
        auto at = inst->gate.get_ptr();
        chain.push_back(g);
        for (size_t k = 0; k < chain.size(); ++k) {
            H_REQUIRE(at && at->name == chain[k].name, "gate number " + std::to_string(k) + " is another one");
            check(at->parameters, chain[k].ps, wanted(chain[k].name), chain[k].name);
            at = at->gate.get_ptr();
        }
        H_REQUIRE(!at, "more gates than written");
    }
    return h::done();
}
