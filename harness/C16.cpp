#include "v3x.hpp"
#include "libqasm/v3x/instruction_set.hpp"
namespace I = cqasm::v3x::instruction;
static const std::set<std::string> ONE{ "H", "I", "X", "X90", "mX90", "Y", "Y90", "mY90", "Z", "Z90", "mZ90", "S", "Sdag", "T", "Tdag", "Rx", "Ry", "Rz", "Rn", "U" };
static const std::set<std::string> TWO{ "CNOT", "CZ", "CR", "CRk", "SWAP" };
static const std::set<std::string> NON{ "measure", "reset", "init", "barrier", "wait" };
static const std::set<std::string> MOD{ "inv", "pow", "ctrl" };
static std::string params(const std::string& n) { return n == "Rx" || n == "Ry" || n == "Rz" || n == "CR" || n == "pow" ? "f" : n == "U" ? "fff" : n == "Rn" ? "fffff" : n == "CRk" || n == "wait" ? "i" : ""; }
static std::string txt(const std::optional<std::string>& o) { return o ? *o : std::string(); }
static void one(const std::string& n) {
    auto& s = I::InstructionSet::get_instance();
    h::begin("instruction name " + h::show(n));
    bool q1 = ONE.count(n), q2 = TWO.count(n), ng = NON.count(n), md = MOD.count(n), c1 = n.rfind("1q", 0) == 0, c2 = n.rfind("2q", 0) == 0;
#define SAME(f, w) H_REQUIRE(s.f(n) == (w), #f " is " + std::string(s.f(n) ? "true" : "false"))
    SAME(is_single_qubit_named_gate, q1); SAME(is_two_qubit_named_gate, q2); SAME(is_named_gate, q1 || q2); SAME(is_non_gate, ng);
    SAME(is_single_qubit_gate_composition, c1); SAME(is_two_qubit_gate_composition, c2); SAME(is_gate_composition, c1 || c2);
    SAME(is_single_qubit_gate, q1 || c1); SAME(is_two_qubit_gate, q2 || c2); SAME(is_gate, q1 || q2 || c1 || c2);
    SAME(is_measure, n == "measure"); SAME(is_reset, n == "reset"); SAME(is_init, n == "init"); SAME(is_barrier, n == "barrier"); SAME(is_wait, n == "wait");
    SAME(is_inv_gate_modifier, n == "inv"); SAME(is_pow_gate_modifier, n == "pow"); SAME(is_ctrl_gate_modifier, n == "ctrl");
    SAME(is_single_qubit_gate_modifier, n == "inv" || n == "pow"); SAME(is_two_qubit_gate_modifier, n == "ctrl"); SAME(is_gate_modifier, md);
    auto look = [&](const char* f, bool known, const std::function<std::optional<std::string>()>& g, bool meas) {
        std::optional<std::string> r;
        try { r = g(); } catch (const cqasm::error::AnalysisError&) { H_REQUIRE(!known, std::string(f) + " does not know it"); return; }
        H_REQUIRE(known, std::string(f) + " accepts it");
        H_REQUIRE(txt(r) == params(n) || (meas && txt(r) == "fff"), std::string(f) + " gives " + txt(r));
    };
    look("get_named_gate_param_types", q1 || q2, [&] { return s.get_named_gate_param_types(n); }, false);
    look("get_non_gate_param_types", ng, [&] { return s.get_non_gate_param_types(n); }, n == "measure");
    look("get_gate_modifier_param_types", md, [&] { return s.get_gate_modifier_param_types(n); }, false);
    look("get_instruction_param_types", q1 || q2 || ng || md, [&] { return s.get_instruction_param_types(n); }, n == "measure");
    for (size_t k : { 0, 1, 2, 3, 4, 5, 6, 100 }) {
        auto r = s.get_non_gate_param_types_with_param_count(n, k);
        bool hit = ng && (k == params(n).size() || (n == "measure" && k == 3));
        if (!hit) H_REQUIRE(!r, "with " + std::to_string(k) + " parameters gives " + txt(r));
        else H_REQUIRE(txt(r).size() == k && txt(r) == (n == "measure" && k == 3 ? "fff" : params(n)), "with " + std::to_string(k) + " parameters gives " + txt(r));
    }
}
int main(int c, char** a) {
    h::init(c, a);
    std::vector<std::string> ns;
    for (auto* s : { &ONE, &TWO, &NON, &MOD }) for (auto& n : *s) { ns.push_back(n); ns.push_back("1q_" + n); ns.push_back("2q_" + n); ns.push_back("1q" + n); ns.push_back(n + "_1q"); }
    for (auto& n : ns) {
        one(n); one(n + " "); one(" " + n); one(n + std::string(1, 0));
        for (size_t i = 0; i < n.size(); ++i) { auto m = n; m[i] ^= 32; one(m); m = n; m.erase(i, 1); one(m); one(n.substr(0, i)); m = n; m.insert(i, 1, 'x'); one(m); }
    }
    for (auto& m : ns) for (auto& n : ns) one(m + n);
    h::strings([](const std::string& s) { one(s); }, false, 300);
    auto& s = I::InstructionSet::get_instance();
    std::set<std::string> seen;
    for (auto* m : { &s.get_named_gate_map(), &s.get_non_gate_map() }) for (auto& [n, pv] : *m) {
        h::begin("table row " + n + " (" + txt(pv.first) + ") " + txt(pv.second));
        seen.insert(n);
        bool gate = m == &s.get_named_gate_map();
        size_t k = txt(pv.second).size();
        H_REQUIRE(gate ? ONE.count(n) + TWO.count(n) : NON.count(n), "is not part of the instruction set");
        if (gate) H_REQUIRE(k == (ONE.count(n) ? 1 : 2), "has another number of operands than its class");
        H_REQUIRE(txt(pv.first) == params(n) || (n == "measure" && txt(pv.first) == "fff"), "has other parameters");
    }
    auto all = [](const auto& l) { std::set<std::string> r; for (auto& n : l) r.insert(n); return r; };
    h::begin("the lists of names");
    H_REQUIRE(all(s.get_single_qubit_named_gate_list()) == all(ONE), "the list of single-qubit gates has other names");
    H_REQUIRE(all(s.get_two_qubit_named_gate_list()) == all(TWO), "the list of two-qubit gates has other names");
    H_REQUIRE(all(s.get_non_gate_list()) == all(NON), "the list of non-gates has other names");
    std::set<std::string> mods; for (auto& [n, p] : s.get_gate_modifier_map()) mods.insert(n);
    H_REQUIRE(mods == all(MOD), "the modifiers have other names");
    h::begin("size of the table");
    H_REQUIRE(seen.size() == ONE.size() + TWO.size() + NON.size(), "some instruction is missing");
    return h::done();
}
