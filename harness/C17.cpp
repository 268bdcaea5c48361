#include "v3x.hpp"
#include "libqasm/v3x/analyzer.hpp"
using namespace vx;
namespace analyzer = cqasm::v3x::analyzer;
using values::Values;
static const char LET[] = { 'b', 'i', 'f', 'B', 'Q', 'W', 'V' };
static std::set<std::pair<std::string, std::string>> standard() {
    std::set<std::pair<std::string, std::string>> s;
    for (std::string n : { "H", "I", "X", "X90", "mX90", "Y", "Y90", "mY90", "Z", "Z90", "mZ90", "S", "Sdag", "T", "Tdag", "Rx", "Ry", "Rz", "Rn", "U" })
        for (std::string o : { "Q", "V" }) { s.insert({ n, o }); s.insert({ "1q_" + n, o }); s.insert({ "2q_" + n, "Q" + o }); s.insert({ "2q_" + n, "V" + o }); }
    for (std::string n : { "CNOT", "CZ", "CR", "CRk", "SWAP" }) for (std::string o : { "QQ", "QV", "VQ", "VV" }) s.insert({ n, o });
    for (std::string o : { "BQ", "WV", "BV", "WQ" }) s.insert({ "measure", o });
    for (std::string n : { "reset", "init", "barrier", "wait" }) for (std::string o : { "Q", "V" }) s.insert({ n, o });
    return s;
}
struct Rec : analyzer::Analyzer {
    std::set<std::pair<std::string, std::string>> got;
    using analyzer::Analyzer::Analyzer;
    void register_instruction(const cqasm::v3x::instruction::Instruction& i) override {
        std::string s;
        for (auto& t : i.operand_types) s += LET[kind(t)];
        got.insert({ i.name, s });
        Analyzer::register_instruction(i);
    }
    void register_instruction(const std::string& n, const std::optional<std::string>& o) override { Analyzer::register_instruction(n, o); }
};
int main(int c, char** a) {
    h::init(c, a);
    auto want = standard();
    h::begin("the default instruction set");
    Rec r; r.register_default_instructions();
    for (auto& [n, o] : want) H_REQUIRE(r.got.count({ n, o }), n + " " + o + " is not registered");
    for (auto& [n, o] : r.got) H_REQUIRE(want.count({ n, o }), n + " " + o + " is registered");
    // letters
    for (int ch = -128; ch < 128; ++ch) {
        h::begin("type letter " + std::to_string(ch));
        int k = -1;
        for (int i = 0; i < 7; ++i) if (LET[i] == ch) k = i;
        try { auto t = types::from_spec((char)ch); H_REQUIRE(kind(t) == k, "stands for another type"); } catch (const std::invalid_argument&) { H_REQUIRE(k < 0, "is rejected"); }
    }
    h::Rng g(h::seed);
    for (int i = 0; i < 3000; ++i) {
        std::string s; std::vector<int> ks;
        for (int n = g.below(9); n > 0; --n) { ks.push_back(g.below(7)); s += LET[ks.back()]; }
        h::begin("type letters " + s);
        auto ts = types::from_spec(s);
        H_REQUIRE(ts.size() == ks.size(), "give another number of types");
        for (size_t j = 0; j < ks.size(); ++j) H_REQUIRE(kind(ts[j]) == ks[j], "give other types");
    }
    // what the analyzer resolves: every name of the set and near misses, every list of up to 3 operand types
    analyzer::Analyzer an; an.register_default_instructions();
    std::set<std::string> names;
    for (auto& [n, o] : want) { names.insert(n); for (std::string p : { "1q_", "2q_", "1q", "3q_", "inv.", "" }) names.insert(p + n); auto m = n; m[0] ^= 32; names.insert(m); names.insert(n.substr(1)); }
    for (auto& d : h::dict) if (d.size() < 20) names.insert(d);
    std::vector<std::string> lists{ "" };
    for (size_t i = 0; i < lists.size(); ++i) if (lists[i].size() < 3) for (char l : LET) lists.push_back(lists[i] + l);
    lists.push_back("QQQQ"); lists.push_back("VVVV");
    for (auto& n : names) for (auto& l : lists) {
        h::begin("resolve " + h::show(n) + " on " + l);
        std::vector<vx::tree::One<semantic::Variable>> hold;
        Values ws;
        for (char ch : l) { int k = std::find(LET, LET + 7, ch) - LET; auto v = vx::tree::make<semantic::Variable>("v", type(k, k >= 5 ? 3 : 1)); hold.push_back(v); ws.add(vx::tree::make<values::VariableRef>(v)); }
        bool ok = want.count({ n, l });
        for (int gate = 0; gate < 2; ++gate) {
            try {
                auto i = gate ? an.resolve_instruction(n, vx::tree::make<semantic::Gate>(n), ws) : an.resolve_instruction(n, ws);
                H_REQUIRE(ok, "is resolved although it is not part of the set");
                auto ref = i->as_gate_instruction() ? i->as_gate_instruction()->instruction_ref : i->as_non_gate_instruction()->instruction_ref;
                H_REQUIRE(ref->name == n && ref->operand_types.size() == l.size(), "resolves to another instruction");
                for (size_t j = 0; j < l.size(); ++j) H_REQUIRE(LET[kind(ref->operand_types[j])] == l[j], "resolves to another overload");
            } catch (const cqasm::error::AnalysisError&) { H_REQUIRE(!ok, "is not resolved"); }
        }
    }
    // from inside nested scopes, with instructions of their own
    for (int depth = 1; depth < 4; ++depth) {
        analyzer::Analyzer in; in.register_default_instructions();
        for (int k = 0; k < depth; ++k) { in.push_scope(); if (k == 0) in.register_instruction("own", std::string("Q")); }
        auto with_own = want; with_own.insert({ "own", "Q" });
        auto all = names; all.insert("own");
        for (auto& n : all) for (auto& l : lists) {
            if (l.size() > 2) continue;
            h::begin("resolve " + h::show(n) + " on " + l + " inside " + std::to_string(depth) + " scopes");
            std::vector<vx::tree::One<semantic::Variable>> hold;
            Values ws;
            for (char ch : l) { int k = std::find(LET, LET + 7, ch) - LET; auto v = vx::tree::make<semantic::Variable>("v", type(k, k >= 5 ? 3 : 1)); hold.push_back(v); ws.add(vx::tree::make<values::VariableRef>(v)); }
            bool ok = with_own.count({ n, l });
            for (int gate = 0; gate < 2; ++gate) {
                bool got = true;
                try { gate ? in.resolve_instruction(n, vx::tree::make<semantic::Gate>(n), ws) : in.resolve_instruction(n, ws); } catch (const cqasm::error::AnalysisError&) { got = false; }
                H_REQUIRE(got == ok, got ? "is resolved" : "is not resolved");
            }
        }
    }
    return h::done();
}
